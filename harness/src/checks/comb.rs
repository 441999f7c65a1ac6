//! C14, C15, C16, C22: combinators, observed through recording and scripted inner parsers
use crate::api::{self, P, Q};
use crate::gen::*;
use crate::model::{self, *};
use crate::rt::*;
use crate::snap::*;
use der_parser::ber::*;
use der_parser::error::{BerError, BerResult};
use der_parser::nom::error::ErrorKind;
use der_parser::nom::{Err as NErr, Needed};
use std::cell::RefCell;
use sut::{CErr, CRes, Kind};

/// What the scripted inner parser does in its n-th call
#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Take(usize, u64),
    Err(u64),
    Fail(u64),
    Inc(usize),
    Zero(u64),
}
fn mix(seed: u64, n: u64) -> u64 {
    let mut r = Rng::new(seed ^ n.wrapping_mul(0x1234_5677_89ab_cdef));
    r.u64()
}
fn act(seed: u64, n: usize, len: usize) -> Act {
    let h = mix(seed, n as u64);
    let id = h >> 8;
    let step = match seed >> 8 & 7 {
        0 => 1,
        1 => len,
        2 => 1 + (h >> 16) as usize % 30,
        _ => 1 + (h >> 16) as usize % 5,
    };
    // half of the scripts never fail, the others do now and then
    let k = if seed & 1 == 0 { 99 } else { (h >> 40) % [3, 12, 40, 40][(seed >> 1 & 3) as usize] };
    match k {
        0 => Act::Err(id),
        1 => Act::Fail(id),
        2 => match id % 3 {
            0 => Act::Inc(0),
            1 => Act::Inc(1 + (id as usize >> 2) % 5000),
            _ => Act::Zero(id),
        },
        _ => Act::Take(step.min(len).max(1), id),
    }
}
fn needed(n: usize) -> Needed {
    if n == 0 {
        Needed::Unknown
    } else {
        Needed::new(n)
    }
}
fn apply<'a>(a: Act, x: &'a [u8]) -> CRes<'a, u64> {
    match a {
        Act::Take(k, id) => Ok((&x[k.min(x.len())..], id)),
        Act::Zero(id) => Ok((x, id)),
        Act::Err(id) => Err(NErr::Error(cerr(id))),
        Act::Fail(id) => Err(NErr::Failure(cerr(id))),
        Act::Inc(n) => Err(NErr::Incomplete(needed(n))),
    }
}
/// the caller's own errors come in all variants, also ones that look like the library's
fn cerr(id: u64) -> CErr {
    match id % 7 {
        0 => CErr::Ber(BerError::BerMaxDepth),
        1 => CErr::Nom(ErrorKind::Eof),
        2 => CErr::Ber(BerError::UnknownTag(id as u32)),
        3 => CErr::Nom(ErrorKind::Many0),
        _ => CErr::Custom(id),
    }
}
fn berr(id: u64) -> BerError {
    match id % 5 {
        0 => BerError::BerMaxDepth,
        1 => BerError::NomError(ErrorKind::Alpha),
        2 => BerError::UnexpectedTag { expected: Some(Tag(id as u32)), actual: Tag(7) },
        _ => BerError::UnknownTag(id as u32),
    }
}
fn apply_obj<'a>(a: Act, x: &'a [u8]) -> BerResult<'a> {
    match a {
        Act::Take(k, id) => Ok((&x[k.min(x.len())..], BerObject::from_obj(BerObjectContent::Enum(id)))),
        Act::Zero(id) => Ok((x, BerObject::from_obj(BerObjectContent::Enum(id)))),
        Act::Err(id) => Err(NErr::Error(berr(id))),
        Act::Fail(id) => Err(NErr::Failure(berr(id))),
        Act::Inc(n) => Err(NErr::Incomplete(needed(n))),
    }
}
#[derive(Clone, Debug, PartialEq)]
enum SimOut {
    Ok(Vec<u64>),
    /// the item's error, which has to be fatal
    Item(u64),
    /// refused for a reason of the combinator's own
    Refused,
}
struct Sim {
    log: Vec<S>,
    out: SimOut,
}
/// what a list combinator has to do on contents c
fn sim_list(seed: u64, c: S) -> Sim {
    let (mut p, end) = (c.0, c.0 + c.1);
    let mut log = vec![];
    let mut v = vec![];
    while p < end {
        log.push((p, end - p));
        match act(seed, log.len() - 1, end - p) {
            Act::Take(k, id) => {
                p += k;
                v.push(id);
            }
            Act::Err(id) | Act::Fail(id) => return Sim { log, out: SimOut::Item(id) },
            // an item parser that makes no progress, or wants data beyond the contents
            Act::Zero(_) | Act::Inc(_) => return Sim { log, out: SimOut::Refused },
        }
    }
    Sim { log, out: SimOut::Ok(v) }
}
/// Calls seen by a scripted inner parser: position and length in the input, empty calls apart
struct Rec<'b> {
    base: Base<'b>,
    log: RefCell<Vec<S>>,
    hdr: RefCell<Vec<H>>,
    depth: RefCell<Vec<usize>>,
    empty: RefCell<usize>,
    outside: RefCell<bool>,
}
impl<'b> Rec<'b> {
    fn new(i: &'b [u8]) -> Self {
        Rec { base: Base(i), log: RefCell::new(vec![]), hdr: RefCell::new(vec![]), depth: RefCell::new(vec![]), empty: RefCell::new(0), outside: RefCell::new(false) }
    }
    fn note(&self, x: &[u8]) -> usize {
        if x.is_empty() {
            *self.empty.borrow_mut() += 1;
            // an empty slice still has to lie within the buffer
            let a = self.base.0.as_ptr() as usize;
            let p = x.as_ptr() as usize;
            if p < a || p > a + self.base.0.len() {
                *self.outside.borrow_mut() = true;
            }
            return usize::MAX;
        }
        let s = self.base.s(x);
        if s.0 == OUTSIDE {
            *self.outside.borrow_mut() = true;
        }
        self.log.borrow_mut().push(s);
        self.log.borrow().len() - 1
    }
    fn calls(&self) -> usize {
        self.log.borrow().len() + *self.empty.borrow()
    }
}
fn kind(set: bool) -> Kind {
    if set {
        Kind::Set
    } else {
        Kind::Seq
    }
}
/// the element as the combinators see it
fn element(i: &[u8], der: bool) -> R<(H, S, usize)> {
    let (h, p) = model::header(i, 0, i.len(), der)?;
    let (c, e) = model::content(i, p, i.len(), &h, MAXREC)?;
    Ok((h, c, e))
}
fn gen_element(g: &mut Gen, tags: &[u32]) -> Vec<u8> {
    let class = if g.r.chance(3, 4) { 0 } else { g.r.below(4) as u8 };
    let tag = if g.r.chance(9, 10) { *g.r.pick(tags) } else { g.tag() };
    tagged_element(g, class, tag)
}
fn tagged_element(g: &mut Gen, class: u8, tag: u32) -> Vec<u8> {
    let mut c = vec![];
    match g.r.below(5) {
        0 => {
            let n = g.size(200);
            c = g.bytes(n);
        }
        1 => c = g.elem(Opt { depth: 3, ..DER }),
        _ => {
            let o = g.any_opt();
            for _ in 0..g.r.below(7) {
                c.extend(g.elem(Opt { depth: 2, maxlen: 30, ..o }));
            }
        }
    }
    let mut v = if g.r.chance(1, 4) {
        // contents of an indefinite length have to be elements
        let mut c = vec![];
        for _ in 0..g.r.below(5) {
            c.extend(g.elem(Opt { depth: 2, maxlen: 30, ..BER }));
        }
        g.wrap(class, tag, &c, Opt { indef: 100, ..BER })
    } else {
        let cons = g.r.chance(9, 10);
        g.tlv(class, cons, tag, &c, 20)
    };
    for _ in 0..g.r.below(5) {
        let x = g.byte();
        v.push(x);
    }
    if g.r.chance(1, 12) {
        let k = g.r.below(v.len() + 1);
        v.truncate(k);
    }
    v
}

pub struct C14;
impl Check for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "sequence, set and container combinators (BER and DER, list and defined forms) are run on generated elements with recording, scripted item parsers (consuming various amounts, failing, wanting more, making no progress at a chosen call); the recorded calls and the result are compared with a simulation on the reference framing; non-trivial: the inner parser was called or had to be called"
    }
    fn fixed(&self, _t: Tier, emit: &mut dyn FnMut(Case)) {
        for tag in [0x30u8, 0x31, 0xb0, 0xb1, 0x10, 0x11, 0x32, 0x24] {
            for n in 0..6u8 {
                for s in 0..40u64 {
                    let mut v = vec![tag, n];
                    v.extend((0..n).map(|k| k + 1));
                    v.extend([9, 9]);
                    emit(Case::new(v.clone(), mix(s, 1)));
                    if n > 1 {
                        emit(Case::new(v[..n as usize + 1].to_vec(), mix(s, 2)));
                    }
                }
            }
            for items in 0..5usize {
                for s in 0..20u64 {
                    let mut v = vec![tag | 0x20, 0x80];
                    v.extend([2u8, 1, 7].repeat(items));
                    v.extend([0, 0, 5, 5]);
                    emit(Case::new(v, mix(s, 3)));
                }
            }
        }
        for n in [127usize, 128, 255, 256, 3000, 70_000] {
            for s in 0..8u64 {
                emit(Case::new(model::tlv(0, true, 16 + (s as u32 & 1), &vec![5; n]), mix(s, 4) & !0xff00));
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let p = g.r.u64();
        Case::new(gen_element(g, &[16, 17]), p)
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), String> {
        let i = place(0, &c.input);
        let b = Base(i);
        let mut r = c.rng();
        let seed = c.param;
        for der in [false, true] {
            let el = element(i, der);
            for set in [false, true] {
                let want_tag = if set { 17 } else { 16 };
                let ok_el = match &el {
                    Ok((h, cc, e)) if h.tag == want_tag => Some((h.clone(), *cc, *e)),
                    _ => None,
                };
                let name = |w: &str| format!("{} {} {w}", if der { "DER" } else { "BER" }, if set { "set" } else { "sequence" });
                // list forms
                let sim = ok_el.as_ref().map(|(_, cc, _)| sim_list(seed, *cc));
                for form in 0..2 {
                    let rec = Rec::new(i);
                    let item = |x: &'static [u8]| -> Act {
                        let n = rec.note(x);
                        if n == usize::MAX {
                            Act::Inc(1)
                        } else {
                            act(seed, n, x.len())
                        }
                    };
                    let res: Result<(&[u8], Vec<u64>), String> = if form == 0 {
                        let mut f = |x: &'static [u8]| apply(item(x), x);
                        sut::list_of_v(der, kind(set), i, &mut f).map_err(|e| format!("{e:?}"))
                    } else {
                        let f = |x: &'static [u8]| apply_obj(item(x), x);
                        sut::list_of(der, kind(set), i, &f).map_err(|e| format!("{e:?}")).and_then(|(rem, o)| {
                            let l = match (&o.content, set) {
                                (BerObjectContent::Sequence(l), false) | (BerObjectContent::Set(l), true) => l,
                                _ => return Ok((rem, vec![u64::MAX])),
                            };
                            let ids = l.iter().map(|o| if let BerObjectContent::Enum(e) = o.content { e } else { u64::MAX }).collect();
                            if o.tag().0 != want_tag || !o.is_constructed() || o.class() != Class::Universal {
                                return Ok((rem, vec![u64::MAX, 1]));
                            }
                            Ok((rem, ids))
                        })
                    };
                    st.add("list_runs", 1);
                    let nm = name(if form == 0 { "of_v" } else { "of" });
                    if *rec.outside.borrow() {
                        return Err(format!("{nm}: the item parser was given data outside the buffer"));
                    }
                    let Some(sim) = &sim else {
                        if rec.calls() > 0 {
                            return Err(format!("{nm}: the item parser was called although the element is not acceptable ({el:?})"));
                        }
                        if let Ok(x) = res {
                            return Err(format!("{nm}: accepted {x:?}, but the element is {el:?}"));
                        }
                        st.add("refused_without_call", 1);
                        continue;
                    };
                    st.nontrivial();
                    st.add("item_calls", rec.log.borrow().len() as u64);
                    st.max("items_in_one_list", rec.log.borrow().len() as u64);
                    if *rec.log.borrow() != sim.log {
                        return Err(format!("{nm}: item parser calls (offset, length) {} expected {}", short(&rec.log.borrow()), short(&sim.log)));
                    }
                    let (_, _, e) = ok_el.clone().unwrap_or((H { class: 0, cons: false, tag: 0, len: None, raw: None }, (0, 0), 0));
                    match (&res, &sim.out) {
                        (Ok((rem, ids)), SimOut::Ok(want)) => {
                            if ids != want {
                                return Err(format!("{nm}: results {} expected {}", short(ids), short(want)));
                            }
                            if consumed(i, rem) != Some(e) {
                                return Err(format!("{nm}: remainder after {:?} octets instead of {e}", consumed(i, rem)));
                            }
                            st.add("lists_accepted", 1);
                        }
                        (Err(_), SimOut::Item(_) | SimOut::Refused) => st.add("lists_refused", 1),
                        (Ok(_), o) => return Err(format!("{nm}: success although {o:?}")),
                        (Err(x), SimOut::Ok(_)) => return Err(format!("{nm}: fails with {x}")),
                    }
                    st.distinct("call_sequences", hash64(&[format!("{:?}", rec.log.borrow()).as_bytes()]));
                }
                // defined forms
                for form in 0..3 {
                    let rec = Rec::new(i);
                    let a = act(seed, 77 + form, i.len());
                    let cut = |x: &'static [u8], a: Act| -> Act {
                        rec.note(x);
                        match a {
                            Act::Take(k, id) => Act::Take(k.min(x.len()), id),
                            a => a,
                        }
                    };
                    let (nm, res, accept): (String, Result<(&[u8], u64), String>, Option<(H, S, usize)>) = match form {
                        0 => {
                            let mut f = |x: &'static [u8]| -> BerResult<'static, Vec<BerObject<'static>>> {
                                let (rem, o) = apply_obj(cut(x, a), x)?;
                                Ok((rem, vec![o, BerObject::from_obj(BerObjectContent::Null)]))
                            };
                            let res = sut::defined(der, kind(set), i, &mut f).map_err(|e| format!("{e:?}")).map(|(rem, o)| {
                                let l = match (&o.content, set) {
                                    (BerObjectContent::Sequence(l), false) | (BerObjectContent::Set(l), true) if o.tag().0 == want_tag && o.is_constructed() => l.clone(),
                                    _ => vec![],
                                };
                                let id = match l.as_slice() {
                                    [x, y] if y.content == BerObjectContent::Null => x.as_u64().unwrap_or(u64::MAX),
                                    _ => u64::MAX,
                                };
                                (rem, id)
                            });
                            (name("defined"), res, ok_el.clone())
                        }
                        1 => {
                            let mut f = |x: &'static [u8], h: Header<'static>| {
                                rec.hdr.borrow_mut().push(b.h(&h));
                                apply(cut(x, a), x)
                            };
                            (name("defined_g"), sut::defined_g(der, kind(set), i, &mut f).map_err(|e| format!("{e:?}")), ok_el.clone())
                        }
                        _ => {
                            if set {
                                continue;
                            }
                            let mut f = |x: &'static [u8], h: Header<'static>| {
                                rec.hdr.borrow_mut().push(b.h(&h));
                                apply(cut(x, a), x)
                            };
                            (name("container"), sut::container(der, i, &mut f).map_err(|e| format!("{e:?}")), el.clone().ok())
                        }
                    };
                    st.add("defined_runs", 1);
                    once(&nm, i, &rec, accept, &el, a, res, st, form > 0)?;
                }
                api::check(&P::Slice(der, want_tag), i)?;
            }
            // the library's own parsers as item parsers
            for q in [Q::ListOf(der, false), Q::ListOf(der, true), Q::ListOfV(der, r.chance(1, 2)), Q::Defined(der, false), Q::Defined(der, true)] {
                api::check_q(&q, i)?;
            }
        }
        // one instance on several inputs: no state is kept between them
        if i.len() < 3000 {
            let der = r.chance(1, 2);
            let j = place(1, &model::tlv(0, true, 16, &[1, 2, 3, 4]));
            let ins: Vec<&'static [u8]> = vec![i, j, i, &j[..2], j];
            let mut n = 0usize;
            let mut f = |x: &'static [u8]| -> CRes<'static, u64> {
                if x.is_empty() {
                    return Err(NErr::Incomplete(Needed::Unknown));
                }
                n += 1;
                Ok((&x[x.len().min(2)..], x[0] as u64))
            };
            let rs = sut::list_of_v_reuse(der, &ins, &mut f);
            for (k, want) in [(1, true), (3, false), (4, true)] {
                let good = matches!(&rs[k], Ok((rem, v)) if rem.is_empty() && *v == [1, 3]);
                if good != want {
                    return Err(format!("an instance used several times: use {k} gives {:?}", rs[k].as_ref().map(|x| &x.1)));
                }
            }
            if rs[0].as_ref().map(|x| &x.1).ok() != rs[2].as_ref().map(|x| &x.1).ok() {
                return Err("an instance used several times on the same input gives different results".into());
            }
            st.add("instances_reused", 1);
        }
        if i.len() < 400 && r.chance(1, 3) {
            reuse(i, &mut r, 0..18, 0, st)?;
        }
        Ok(())
    }
}
fn short<T: std::fmt::Debug>(v: &[T]) -> String {
    format!("{:?}{}", &v[..v.len().min(8)], if v.len() > 8 { format!("..({})", v.len()) } else { String::new() })
}
/// the inner parser is called exactly once on the contents iff the element is acceptable
#[allow(clippy::too_many_arguments)]
fn once(nm: &str, i: &[u8], rec: &Rec, accept: Option<(H, S, usize)>, el: &R<(H, S, usize)>, a: Act, res: Result<(&[u8], u64), String>, st: &mut Stats, has_hdr: bool) -> Result<(), String> {
    if *rec.outside.borrow() {
        return Err(format!("{nm}: the inner parser was given data outside the buffer"));
    }
    let Some((h, c, e)) = accept else {
        if rec.calls() > 0 {
            return Err(format!("{nm}: the inner parser was called although the element is not acceptable ({el:?})"));
        }
        if let Ok(x) = res {
            return Err(format!("{nm}: accepted as {:?}, but the element is {el:?}", x.1));
        }
        st.add("refused_without_call", 1);
        return Ok(());
    };
    st.nontrivial();
    let exp: Vec<S> = if c.1 == 0 { vec![] } else { vec![c] };
    if *rec.log.borrow() != exp || rec.calls() != 1 {
        return Err(format!("{nm}: the inner parser was called on {} ({} calls), the contents are {c:?}", short(&rec.log.borrow()), rec.calls()));
    }
    if has_hdr && *rec.hdr.borrow() != vec![h.clone()] {
        return Err(format!("{nm}: the inner parser was given the header {:?}, the element has {h:?}", rec.hdr.borrow()));
    }
    match (res, a) {
        (Ok((rem, id)), Act::Take(_, want) | Act::Zero(want)) => {
            if id != want {
                return Err(format!("{nm}: result {id} instead of {want}"));
            }
            if consumed(i, rem) != Some(e) {
                return Err(format!("{nm}: remainder after {:?} octets instead of {e}", consumed(i, rem)));
            }
            st.add("accepted", 1);
        }
        (Err(_), Act::Err(_) | Act::Fail(_) | Act::Inc(_)) => st.add("inner_failures", 1),
        (Ok(_), a) => return Err(format!("{nm}: success although the inner parser did {a:?}")),
        (Err(x), a) => return Err(format!("{nm}: fails with {x} although the inner parser did {a:?}")),
    }
    Ok(())
}

pub struct C15;
impl Check for C15 {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "explicit and implicit combinators (BER and DER, object, generic, function and optional forms) are run on generated elements of every class, form, tag and length form with recording inner parsers and with the library's content parsers; acceptance, recorded calls (contents, header) and result are compared with the reference framing, and implicit values with the untagged encoding; non-trivial: the element carries the requested tag number"
    }
    fn fixed(&self, _t: Tier, emit: &mut dyn FnMut(Case)) {
        let mut g = Gen::plain(15);
        for b0 in 0..=255u8 {
            for (k, body) in [vec![0u8], vec![1, 7], vec![3, 2, 1, 9], vec![3, 4, 1, 0x41, 5], vec![0x80, 2, 1, 9, 0, 0], vec![0x80, 0, 0]].into_iter().enumerate() {
                let mut v = vec![b0];
                if b0 & 0x1f == 0x1f {
                    v.push(0x21);
                }
                v.extend(body);
                v.push(0xcc);
                emit(Case::new(v, k as u64));
            }
        }
        for &t in UNIV {
            for k in 0..40u64 {
                let o = if k % 2 == 0 { DER } else { BER };
                let c = if t == 16 || t == 17 { g.elem(Opt { depth: 2, ..o }) } else { g.content(t, o) };
                let cons = t == 16 || t == 17;
                // param: type to read the contents as
                emit(Case::new(g.tlv(2, cons, (k % 35) as u32, &c, 20), (t as u64) << 8 | 1));
                if cons {
                    emit(Case::new(g.wrap(2, (k % 35) as u32, &c, Opt { indef: 100, ..BER }), (t as u64) << 8 | 1));
                }
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let p = g.r.u64();
        let class = g.r.below(4) as u8;
        let tag = g.tag();
        if g.r.chance(1, 3) {
            let t = *g.r.pick(UNIV);
            let o = if g.r.chance(1, 2) { DER } else { BER };
            let o = Opt { bad: 10, ..o };
            let c = if t == 16 || t == 17 { g.elem(Opt { depth: 3, ..o }) } else { g.content(t, o) };
            let cons = t == 16 || t == 17 || g.r.chance(1, 10);
            let v = if cons { g.wrap(class, tag, &c, o) } else { g.tlv(class, false, tag, &c, 20) };
            return Case::new(v, (p << 16) | ((t as u64) << 8) | 1);
        }
        let p = p & !1;
        if g.r.chance(1, 2) {
            // an explicit tag around one element
            let o = if g.r.chance(1, 2) { DER } else { BER };
            let c = g.elem(Opt { depth: 3, ..o });
            let mut v = g.wrap(class, tag, &c, o);
            if g.r.chance(1, 3) {
                v.push(0x5a);
            }
            return Case::new(v, p);
        }
        Case::new(tagged_element(g, class, tag), p)
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), String> {
        let i = place(0, &c.input);
        let b = Base(i);
        let mut r = c.rng();
        let seed = c.param >> 3;
        let own = match model::header(i, 0, i.len(), false) {
            Ok((h, _)) => h.tag,
            Err(_) => 0,
        };
        let inner = if c.param & 1 == 1 { (c.param >> 8 & 0x1f) as u32 } else { r.below(31) as u32 };
        for der in [false, true] {
            let el = element(i, der);
            for tag in [own, own ^ 1, own.wrapping_add(32), r.below(40) as u32] {
                let has_tag = matches!(&el, Ok((h, _, _)) if h.tag == tag);
                let exp_ok = match &el {
                    Ok((h, cc, e)) if h.tag == tag && h.class != 0 && h.cons => Some((h.clone(), *cc, *e)),
                    _ => None,
                };
                let imp_ok = match &el {
                    Ok((h, cc, e)) if h.tag == tag => Some((h.clone(), *cc, *e)),
                    _ => None,
                };
                if has_tag {
                    st.nontrivial();
                }
                let a = act(seed, tag as usize & 3, i.len());
                let nm = |w: &str| format!("{} {w} [{tag}]", if der { "DER" } else { "BER" });
                // explicit, object form
                let rec = Rec::new(i);
                let f = |x: &'static [u8]| {
                    rec.note(x);
                    apply_obj(clip(a, x), x)
                };
                let res = sut::explicit(der, tag, i, &f);
                let mut outer = None;
                let res = match res {
                    Ok((rem, o)) => {
                        outer = Some(b.h(&o.header));
                        match &o.content {
                            BerObjectContent::Tagged(cl, t, x) if Some((*cl as u8, t.0)) == el.as_ref().ok().map(|z| (z.0.class, z.0.tag)) => Ok((rem, x.as_u64().unwrap_or(u64::MAX))),
                            x => return Err(format!("{}: the result is {x:?}", nm("explicit"))),
                        }
                    }
                    Err(e) => Err(format!("{e:?}")),
                };
                if let (Some(h), Ok((want, _, _))) = (&outer, &el) {
                    if h != want {
                        return Err(format!("{}: the result has the header {h:?}, the element {want:?}", nm("explicit")));
                    }
                }
                once(&nm("explicit"), i, &rec, exp_ok.clone(), &el, a, res, st, false)?;
                // generic form
                let rec = Rec::new(i);
                let f = |x: &'static [u8], h: Header<'static>| {
                    rec.note(x);
                    rec.hdr.borrow_mut().push(b.h(&h));
                    apply(clip(a, x), x)
                };
                let res = sut::explicit_g(der, tag, i, &f).map_err(|e| format!("{e:?}"));
                once(&nm("explicit_g"), i, &rec, exp_ok.clone(), &el, a, res, st, true)?;
                // implicit
                for form in 0..3 {
                    let rec = Rec::new(i);
                    let see = |x: &'static [u8], h: &Header, d: usize| {
                        rec.note(x);
                        let mut h = b.h(h);
                        // how the length of an indefinite length element is shown to the inner parser is open
                        if let Ok((w, _, _)) = &el {
                            if w.len.is_none() {
                                h.len = None;
                            }
                        }
                        rec.hdr.borrow_mut().push(h);
                        rec.depth.borrow_mut().push(d);
                    };
                    let f = |x: &'static [u8], h: &Header, d: usize| -> BerResult<'static, BerObjectContent<'static>> {
                        see(x, h, d);
                        apply_obj(clip(a, x), x).map(|(rem, o)| (rem, o.content))
                    };
                    let obj = |rr: BerResult<'static>| -> Result<Result<(&'static [u8], u64), String>, String> {
                        Ok(match rr {
                            Ok((rem, o)) => {
                                let h = b.h(&o.header);
                                if let Ok((w, _, _)) = &el {
                                    if (h.class, h.cons, h.tag, h.raw) != (w.class, w.cons, w.tag, w.raw) || (w.len.is_some() && h.len != w.len) {
                                        return Err(format!("{}: the result has the header {h:?}, the element {w:?}", nm("implicit")));
                                    }
                                }
                                Ok((rem, o.as_u64().unwrap_or(u64::MAX)))
                            }
                            Err(e) => Err(format!("{e:?}")),
                        })
                    };
                    let (w, res) = match form {
                        0 => ("implicit", obj(sut::implicit(der, tag, i, &f))?),
                        1 => ("implicit (function)", obj(sut::implicit_fn(der, tag, i, &f))?),
                        _ => (
                            "implicit_g",
                            sut::implicit_g(der, tag, i, &|x, h, d| {
                                see(x, &h, d);
                                apply(clip(a, x), x)
                            })
                            .map_err(|e| format!("{e:?}")),
                        ),
                    };
                    once(&nm(w), i, &rec, imp_ok.clone(), &el, a, res, st, true)?;
                    if rec.depth.borrow().iter().any(|d| *d == 0 || *d > MAXREC) {
                        return Err(format!("{}: depth {:?} given to the inner parser", nm(w), rec.depth.borrow()));
                    }
                }
                // with the library's parsers
                for q in [Q::Explicit(der, tag), Q::ExplicitOpt(der, tag), Q::Implicit(der, tag, inner), Q::ImplicitG(der, tag, inner), Q::ImplicitFn(der, tag, inner)] {
                    let o = api::check_q(&q, i)?;
                    st.add("library_inner", 1);
                    if o.ok() {
                        st.add("library_inner_accepted", 1);
                    }
                }
            }
            // implicit: as the untagged type would
            if let Ok((h, cc, e)) = &el {
                let mut v = model::enc_tag(0, h.cons, inner);
                v.extend(model::enc_len(cc.1));
                let hl = v.len();
                v.extend(&i[cc.0..cc.0 + cc.1]);
                let u = place(1, &v);
                let un = sut::with_tag(der, u, inner);
                let im = sut::implicit_content2(der, own, inner, i);
                let off = |s: S| if s.1 == 0 { s } else { (s.0.wrapping_sub(hl).wrapping_add(cc.0), s.1) };
                match (un, im) {
                    (Ok((_, a)), Ok((rem, b2))) => {
                        let va = shift(Base(u).v(&a.content), &off);
                        let vb = b.v(&b2);
                        if va != vb && !matches!(va, V::Unk(..)) {
                            return Err(format!("implicit [{own}] read as type {inner} is {vb:?}, untagged it is {va:?}"));
                        }
                        if consumed(i, rem) != Some(*e) {
                            return Err("implicit: wrong remainder".into());
                        }
                        st.add("implicit_equals_untagged", 1);
                    }
                    (Err(_), Err(_)) => st.add("implicit_and_untagged_refused", 1),
                    (x, y) => return Err(format!("implicit [{own}] read as type {inner}: {:?}, but untagged {:?}", y.map(|z| z.1), x.map(|z| z.1))),
                }
            }
        }
        // one instance on several inputs
        if i.len() < 3000 {
            let der = r.chance(1, 2);
            let j = place(2, &model::tlv(2, true, own, &[1, 2]));
            let k = place(3, &model::tlv(2, true, own ^ 1, &[1, 2]));
            let ins: Vec<&'static [u8]> = vec![i, j, k, j, i];
            for imp in [false, true] {
                let rs = if imp { sut::reuse_implicit(der, own, &ins, &|x, _, _| Ok((&x[x.len()..], x.len() as u64))) } else { sut::reuse_explicit(der, own, &ins, &|x, _| Ok((&x[x.len()..], x.len() as u64))) };
                if rs[1] != Ok((&j[j.len()..], 2)) || rs[2].is_ok() || rs[3] != rs[1] || rs[0] != rs[4] {
                    return Err("an instance used several times gives different results".into());
                }
            }
            st.add("instances_reused", 2);
        }
        if i.len() < 400 && r.chance(1, 3) {
            reuse(i, &mut r, 18..22, own, st)?;
        }
        Ok(())
    }
}
/// one instance on a history of inputs (accepted, refused, truncated) answers each of them like a fresh one
fn reuse(i: &'static [u8], r: &mut Rng, forms: std::ops::Range<u8>, tag: u32, st: &mut Stats) -> Result<(), String> {
    let mut ins: Vec<Vec<u8>> = vec![];
    for _ in 0..r.range(3, 8) {
        let mut c: Vec<u8> = (0..r.below(12)).map(|_| *r.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 0x11])).collect();
        if r.chance(1, 3) && !c.is_empty() {
            let k = r.below(c.len());
            c[k] = *r.pick(&[0x1c, 0x1d, 0x1e]);
        }
        let mut e = if tag != 0 || forms.start >= 18 { model::tlv(2, true, tag, &c) } else { model::tlv(0, true, *r.pick(&[16, 17]), &c) };
        match r.below(8) {
            0 => e.truncate(r.below(e.len())),
            1 => e = i.to_vec(),
            2 => e.extend([1, 2, 3]),
            _ => (),
        }
        ins.push(e);
    }
    let refs: Vec<&[u8]> = ins.iter().map(|x| &x[..]).collect();
    for f in forms {
        let (one, each) = (sut::uses(f, tag, &refs, false), sut::uses(f, tag, &refs, true));
        if let Some(k) = (0..one.len()).find(|&k| one[k] != each[k]) {
            return Err(format!("combinator {f} used on {} inputs: use {k} ({}) gives {:.200}, a fresh instance {:.200}", ins.len(), hex(&ins[k]), one[k], each[k]));
        }
        st.add("histories_of_one_instance", 1);
    }
    Ok(())
}
fn clip(a: Act, x: &[u8]) -> Act {
    match a {
        Act::Take(k, id) => Act::Take(k.min(x.len()), id),
        a => a,
    }
}
fn shift(v: V, f: &dyn Fn(S) -> S) -> V {
    let hd = |h: H| H { raw: h.raw.map(f), ..h };
    let sub = |l: Vec<N>| l.into_iter().map(|n| N { h: hd(n.h), v: shift(n.v, f) }).collect();
    match v {
        V::Int(s) => V::Int(f(s)),
        V::Bits(u, s) => V::Bits(u, f(s)),
        V::Oct(s) => V::Oct(f(s)),
        V::Oid(s) => V::Oid(f(s)),
        V::RelOid(s) => V::RelOid(f(s)),
        V::Str(t, s) => V::Str(t, f(s)),
        V::Bmp(s) => V::Bmp(f(s)),
        V::Univ(s) => V::Univ(f(s)),
        V::Unk(a, b, c, d, s) => V::Unk(a, b, c, d, f(s)),
        V::Seq(l) => V::Seq(sub(l)),
        V::Set(l) => V::Set(sub(l)),
        v => v,
    }
}

pub struct C16;
impl Check for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "the optional combinators wrap scripted parsers (success with any consumption, recoverable and fatal errors, incomplete) and the library's parsers, alone and in chains over one buffer; presence, inner object, consumption and continuation are compared with what the inner parser did; non-trivial: every case (inner outcome known)"
    }
    fn fixed(&self, _t: Tier, emit: &mut dyn FnMut(Case)) {
        let mut g = Gen::plain(16);
        emit(Case::new(vec![], 0));
        for k in 0..3000u64 {
            let o = g.any_opt();
            let mut v = vec![];
            for _ in 0..k % 4 + 1 {
                v.extend(g.elem(Opt { depth: 2, maxlen: 20, ..o }));
            }
            let n = v.len();
            if k % 5 == 0 {
                v.truncate(g.r.below(n + 1));
            }
            emit(Case::new(v, mix(k, 0)));
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let p = g.r.u64();
        if g.r.chance(1, 2) {
            let (class, tag) = (g.r.range(1, 3) as u8, g.tag());
            return Case::new(tagged_element(g, class, tag), p);
        }
        Case::new(g.input(), p)
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), String> {
        let i = place(0, &c.input);
        let b = Base(i);
        let mut r = c.rng();
        st.nontrivial();
        // scripted
        for k in 0..4 {
            let a = act(c.param | 1, k, i.len());
            let seen = RefCell::new(vec![]);
            let mut f = |x: &'static [u8]| {
                seen.borrow_mut().push((x.as_ptr() as usize, x.len()));
                apply_obj(clip(a, x), x)
            };
            let res = sut::optional(i, &mut f);
            if *seen.borrow() != vec![(i.as_ptr() as usize, i.len())] {
                return Err(format!("the inner parser was called {} times, or not on the input", seen.borrow().len()));
            }
            st.add("scripted", 1);
            let (rem, o) = match res {
                Ok(x) => x,
                Err(e) => return Err(format!("an optional parser returned an error: {e:?} (the inner parser did {a:?})")),
            };
            let want = apply_obj(clip(a, i), i);
            check_opt(i, &o, rem, want.ok(), b, st)?;
        }
        // chain over one buffer, one instance
        let calls = RefCell::new(0usize);
        let mut f = |x: &'static [u8]| {
            let n = *calls.borrow();
            *calls.borrow_mut() += 1;
            if n % 3 == 1 {
                return der_parser::parse_ber(x);
            }
            apply_obj(clip(act(c.param | 1, n + 50, x.len()), x), x)
        };
        let rs = sut::optional_chain(i, 8, &mut f);
        let mut pos = 0usize;
        for (n, res) in rs.into_iter().enumerate() {
            let here = &i[pos..];
            let want = if n % 3 == 1 { der_parser::parse_ber(here) } else { apply_obj(clip(act(c.param | 1, n + 50, here.len()), here), here) };
            let Ok((rem, o)) = res else { return Err(format!("optional parser {n} in a chain returned an error")) };
            let want = want.ok();
            let k = want.as_ref().map_or(0, |(rem, _)| here.len() - rem.len());
            check_opt(here, &o, rem, want, b, st)?;
            pos += k;
            st.add("chained", 1);
        }
        // the library's parsers
        for der in [false, true] {
            let h = model::header(i, 0, i.len(), false);
            let tag = h.as_ref().map_or(0, |(h, _)| h.tag);
            for q in [Q::Optional(der), Q::OptTag(der, tag), Q::OptTag(der, r.below(31) as u32), Q::ExplicitOpt(der, tag), Q::ExplicitOpt(der, tag ^ 1)] {
                let o = api::run_q(&q, i);
                if !o.ok() {
                    return Err(format!("{q:?}: an optional parser returned an error: {}", o.short()));
                }
                api::check_q(&q, i)?;
                st.add("library_inner", 1);
            }
            // explicit optional with recording
            let n = RefCell::new(vec![]);
            fn rec_parser<'x>(n: &RefCell<Vec<(usize, usize)>>, x: &'x [u8]) -> BerResult<'x> {
                n.borrow_mut().push((x.as_ptr() as usize, x.len()));
                if x.len() % 4 == 3 {
                    return Err(NErr::Failure(BerError::UnknownTag(5)));
                }
                Ok((&x[x.len() / 2..], BerObject::from_obj(BerObjectContent::Enum(x.len() as u64))))
            }
            // the inner parser has to work for every lifetime
            fn hr<F: for<'x> Fn(&'x [u8]) -> BerResult<'x>>(f: F) -> F {
                f
            }
            let f = hr(|x| rec_parser(&n, x));
            let res = sut::explicit_optional(der, tag, i, &f);
            let Ok((rem, o)) = res else { return Err("explicit optional returned an error".into()) };
            match element(i, der) {
                Ok((h, cc, e)) if h.tag == tag && h.class != 0 && h.cons => {
                    if n.borrow().len() != 1 || n.borrow()[0].1 != cc.1 || (cc.1 > 0 && n.borrow()[0].0 != i.as_ptr() as usize + cc.0) {
                        return Err("explicit optional: the inner parser is not called once on the contents".into());
                    }
                    let present = cc.1 % 4 != 3;
                    let got = match &o.content {
                        BerObjectContent::Optional(Some(x)) => match &x.content {
                            BerObjectContent::Tagged(cl, t, y) => *cl as u8 == h.class && t.0 == h.tag && y.content == BerObjectContent::Enum(cc.1 as u64) && consumed(i, rem) == Some(e) && present,
                            _ => false,
                        },
                        BerObjectContent::Optional(None) => !present && consumed(i, rem) == Some(0),
                        _ => false,
                    };
                    if !got {
                        return Err(format!("explicit optional: {:?} after {:?} octets", o.content, consumed(i, rem)));
                    }
                    st.add("explicit_optional", 1);
                }
                _ => {
                    if !n.borrow().is_empty() || o.content != BerObjectContent::Optional(None) || consumed(i, rem) != Some(0) {
                        return Err(format!("explicit optional on another element: {:?}, {} calls, {:?} octets consumed", o.content, n.borrow().len(), consumed(i, rem)));
                    }
                    st.add("explicit_optional_absent", 1);
                }
            }
        }
        if i.len() < 400 && c.param % 3 == 0 {
            let mut r = Rng::new(c.param ^ 0x16);
            reuse(i, &mut r, 22..24, 0, st)?;
        }
        Ok(())
    }
}
fn check_opt(i: &[u8], o: &BerObject, rem: &[u8], want: Option<(&[u8], BerObject)>, b: Base, st: &mut Stats) -> Result<(), String> {
    match (&o.content, want) {
        (BerObjectContent::Optional(Some(x)), Some((wr, w))) => {
            if b.n(x) != b.n(&w) || **x != w {
                return Err(format!("present, but holds {:?} instead of {:?}", x, w));
            }
            if consumed(i, rem) != consumed(i, wr) {
                return Err(format!("present: {:?} octets consumed, the inner parser consumed {:?}", consumed(i, rem), consumed(i, wr)));
            }
            if !matches!(o.as_optional(), Ok(Some(y)) if *y == w) {
                return Err("present, but as_optional says otherwise".into());
            }
            if (o.class(), o.tag(), o.is_constructed()) != (w.class(), w.tag(), w.is_constructed()) {
                return Err(format!("present: class, tag or form of the result is {:?}, of the inner object {:?}", b.h(&o.header), b.h(&w.header)));
            }
            st.add("present", 1);
        }
        (BerObjectContent::Optional(None), None) => {
            if consumed(i, rem) != Some(0) {
                return Err(format!("absent, but {:?} octets are consumed", consumed(i, rem)));
            }
            if o.as_optional() != Ok(None) {
                return Err("absent, but as_optional says otherwise".into());
            }
            st.add("absent", 1);
        }
        (x, w) => return Err(format!("result {x:?} although the inner parser gave {:?}", w.map(|z| z.1))),
    }
    Ok(())
}

pub struct C22;
/// the library's errors in one form, whichever way they were converted
fn norm(e: &NErr<CErr>) -> String {
    let f = |e: &CErr| match e {
        CErr::Ber(BerError::NomError(k)) | CErr::Nom(k) => format!("nom {k:?}"),
        CErr::Ber(b) => format!("{b:?}"),
        CErr::Custom(x) => format!("custom {x}"),
    };
    match e {
        NErr::Incomplete(n) => format!("incomplete {n:?}"),
        NErr::Error(e) => format!("error {}", f(e)),
        NErr::Failure(e) => format!("failure {}", f(e)),
    }
}
fn norm_b(e: NErr<BerError>) -> String {
    norm(&match e {
        NErr::Incomplete(n) => NErr::Incomplete(n),
        NErr::Error(e) => NErr::Error(CErr::Ber(e)),
        NErr::Failure(e) => NErr::Failure(CErr::Ber(e)),
    })
}
impl Check for C22 {
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "the generic combinators run with an inner parser that returns its own outputs and errors (caller-defined error type, recoverable, fatal and incomplete, at a chosen call) on generated elements; the result is compared value by value with what the inner parser returned, and the library's own errors with those of the same combinator instantiated with its own error type; refusals by the library itself have to be recoverable; non-trivial: the inner parser's answer or a library error had to pass through"
    }
    fn fixed(&self, _t: Tier, emit: &mut dyn FnMut(Case)) {
        for tag in [0x30u8, 0x31, 0xa0, 0xa1, 0x80, 0xb0, 0x02] {
            for n in 0..5u8 {
                for s in 0..60u64 {
                    let mut v = vec![tag, n];
                    v.extend((0..n).map(|k| k + 1));
                    emit(Case::new(v.clone(), mix(s, 1) | 1));
                    v.truncate(s as usize % (v.len() + 1));
                    emit(Case::new(v, mix(s, 2) | 1));
                }
            }
        }
        // headers that the library itself refuses, for every way to be wrong
        let bad_tags: [&[u8]; 7] = [
            &[0x80],
            &[0x80, 0x80, 0x80, 1],
            &[0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 1],
            &[0xff, 0xff, 0xff, 0xff, 0xff, 0x7f],
            &[0xff, 0xff, 0xff, 0xff, 0x7f],
            &[1],
            &[0x9e, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01],
        ];
        let bad_lens: [&[u8]; 12] = [
            &[0xff],
            &[0x80],
            &[0x81, 3],
            &[0x81],
            &[0x82, 0, 3],
            &[0x88, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
            &[0x89, 1, 0, 0, 0, 0, 0, 0, 0, 0],
            &[0x89, 0, 0, 0, 0, 0, 0, 0, 0, 3],
            &[0x85, 1, 0, 0, 0, 0],
            &[0xfe, 1],
            &[0x84, 0x80, 0, 0, 0],
            &[0x83, 0, 0],
        ];
        let mut n = 0u64;
        for lead in [0x00u8, 0x10, 0x30, 0x31, 0x60, 0x80, 0xa0, 0xa1, 0xe0, 0x20] {
            let mut put = |v: Vec<u8>| {
                for t in 0..3 {
                    n += 1;
                    let mut w = v.clone();
                    w.extend([2, 1, 5, 0, 0].iter().take(if t == 2 { 0 } else { 5 }));
                    emit(Case::new(w, mix(n, 3) | 1));
                }
            };
            for t in bad_tags {
                put([&[lead | 0x1f], t, &[3]].concat());
            }
            for l in bad_lens {
                put([&[lead], l].concat());
            }
            // wrong inside an indefinite length
            for x in [&[0x1f, 0x80, 1, 0][..], &[2, 0xff], &[4, 0x80], &[0x30, 0x80, 2, 0x80], &[0, 1, 0]] {
                put([&[lead, 0x80], x].concat());
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let p = g.r.u64();
        let v = match g.r.below(6) {
            0..=2 => gen_element(g, &[16, 17]),
            3 => g.input(),
            _ => {
                let (class, tag) = (g.r.below(4) as u8, g.tag());
                tagged_element(g, class, tag)
            }
        };
        Case::new(v, p)
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), String> {
        let i = place(0, &c.input);
        let mut r = c.rng();
        let own = model::header(i, 0, i.len(), false).map_or(0, |(h, _)| h.tag);
        for der in [false, true] {
            let seed = c.param;
            // the library's own refusals are recoverable, whatever is refused
            let mut ps = api::all_for(own, der);
            for _ in 0..3 {
                ps.push(api::pick(&mut r, i, Some(der)));
                ps.push(api::pick_made(&mut r, i, der));
            }
            for p in ps {
                if let Out::Err(k, fatal) = api::run(&p, i) {
                    if fatal {
                        return Err(format!("{p:?}: the library's own refusal is fatal: {k}"));
                    }
                    st.nontrivial();
                    st.add("own_refusals", 1);
                    st.distinct("own_refusal_kinds", hash64(&[k.as_bytes()]));
                }
            }
            for _ in 0..3 {
                let q = api::pick_q(&mut r, i, der);
                if matches!(q, Q::ListOf(..) | Q::ListOfV(..)) {
                    continue;
                }
                if let Out::Err(k, true) = api::run_q(&q, i) {
                    return Err(format!("{q:?}: the library's own refusal is fatal: {k}"));
                }
                st.add("own_refusals_in_combinators", 1);
            }
            for set in [false, true] {
                // lists: outputs in order; an item error becomes fatal and keeps its value
                let n = RefCell::new(0usize);
                let answered: RefCell<Option<NErr<CErr>>> = RefCell::new(None);
                let outs = RefCell::new(vec![]);
                let mut f = |x: &'static [u8]| -> CRes<'static, u64> {
                    if x.is_empty() {
                        return Err(NErr::Incomplete(Needed::Unknown));
                    }
                    let k = *n.borrow();
                    *n.borrow_mut() += 1;
                    let a = apply(clip(act(seed, k, x.len()), x), x);
                    match &a {
                        Ok((rem, v)) if rem.len() < x.len() => outs.borrow_mut().push(*v),
                        // no progress: refused by the combinator itself
                        Ok(_) => *answered.borrow_mut() = Some(NErr::Incomplete(Needed::Unknown)),
                        Err(e) => *answered.borrow_mut() = Some(e.clone()),
                    }
                    a
                };
                let res = sut::list_of_v(der, kind(set), i, &mut f);
                st.add("list_runs", 1);
                let nm = format!("{} {} of", if der { "DER" } else { "BER" }, if set { "set" } else { "sequence" });
                let ans = answered.borrow().clone();
                match (&res, &ans) {
                    (Err(NErr::Failure(e)), Some(NErr::Error(w) | NErr::Failure(w))) if e == w => {
                        st.nontrivial();
                        st.add("item_errors_kept", 1);
                    }
                    (x, Some(NErr::Error(w) | NErr::Failure(w))) => return Err(format!("{nm}: an item failed with {w:?}, the caller got {x:?}")),
                    (Ok(_), Some(NErr::Incomplete(_))) => return Err(format!("{nm}: success although an item wanted more or made no progress")),
                    (Err(_), Some(NErr::Incomplete(_))) => (),
                    (Ok((_, v)), None) => {
                        if *v != *outs.borrow() {
                            return Err(format!("{nm}: the items returned {}, the caller got {}", short(&outs.borrow()), short(v)));
                        }
                        st.nontrivial();
                        st.add("outputs_kept", v.len() as u64);
                    }
                    (Err(e), None) => {
                        // the library's own refusal
                        if !outs.borrow().is_empty() {
                            return Err(format!("{nm}: every item was accepted, the caller got {e:?}"));
                        }
                        let mut twin = |x: &'static [u8]| -> BerResult<'static, u64> {
                            if x.is_empty() {
                                return Err(NErr::Incomplete(Needed::Unknown));
                            }
                            Ok((&x[1..], 0))
                        };
                        own_error(&nm, der, i, e, sut::list_of_v_b(der, kind(set), i, &mut twin).err(), st)?;
                    }
                }
                // the error form of the object combinators
                let told: RefCell<Option<BerError>> = RefCell::new(None);
                let k = RefCell::new(0usize);
                let g = |x: &'static [u8]| {
                    if x.is_empty() {
                        return Err(NErr::Incomplete(Needed::Unknown));
                    }
                    let n = *k.borrow();
                    *k.borrow_mut() += 1;
                    let a = apply_obj(clip(act(seed, n, x.len()), x), x);
                    if let Err(NErr::Error(e) | NErr::Failure(e)) = &a {
                        *told.borrow_mut() = Some(e.clone());
                    }
                    a
                };
                let res = sut::list_of(der, kind(set), i, &g);
                let w = told.borrow().clone();
                if let Some(w) = &w {
                    match &res {
                        Err(NErr::Failure(e)) if e == w => st.add("item_errors_kept", 1),
                        x => return Err(format!("{nm} (objects): an item failed with {w:?}, the caller got {:?}", x.as_ref().map(|_| ()))),
                    }
                }
            }
            // single call forms: everything passes unchanged
            for form in 0..5u8 {
                let a = act(seed, form as usize + 200, i.len());
                let ret: RefCell<Option<CRes<'static, u64>>> = RefCell::new(None);
                let keep = |x: &'static [u8]| {
                    let v = apply(clip(a, x), x);
                    *ret.borrow_mut() = Some(v.clone());
                    v
                };
                let tag = if r.chance(3, 4) { own } else { own ^ 1 };
                let b = |x: &'static [u8], _: Header<'static>| -> BerResult<'static, u64> { Ok((x, 0)) };
                let (nm, res, twin) = match form {
                    0 => ("container", sut::container(der, i, &mut |x, _| keep(x)), sut::container_b(der, i, &b).err()),
                    1 => ("sequence_defined_g", sut::defined_g(der, Kind::Seq, i, &mut |x, _| keep(x)), sut::defined_g_b(der, Kind::Seq, i, &b).err()),
                    2 => ("set_defined_g", sut::defined_g(der, Kind::Set, i, &mut |x, _| keep(x)), sut::defined_g_b(der, Kind::Set, i, &b).err()),
                    3 => ("explicit_g", sut::explicit_g(der, tag, i, &|x, _| keep(x)), sut::explicit_g_b(der, tag, i, &b).err()),
                    _ => ("implicit_g", sut::implicit_g(der, tag, i, &|x, _, _| keep(x)), sut::implicit_g_b(der, tag, i, &b).err()),
                };
                st.add("single_runs", 1);
                let ret = ret.borrow().clone();
                match (&res, &ret) {
                    (Ok((_, v)), Some(Ok((_, w)))) if v == w => {
                        st.nontrivial();
                        st.add("outputs_kept", 1);
                    }
                    (Err(e), Some(Err(w))) if e == w => {
                        st.nontrivial();
                        st.add("errors_kept", 1);
                    }
                    (Err(e), None) => own_error(nm, der, i, e, twin, st)?,
                    (x, y) => return Err(format!("{nm}: the inner parser returned {:?}, the caller got {x:?}", y.as_ref().map(|z| z.as_ref().map(|q| q.1)))),
                }
                // same for the object forms of explicit and implicit
                if form >= 3 {
                    let want = RefCell::new(None);
                    let res = if form == 3 {
                        sut::explicit(der, tag, i, &|x| {
                            let v = apply_obj(clip(a, x), x);
                            *want.borrow_mut() = Some(v.clone().map(|z| z.1.content));
                            v
                        })
                        .map(|(_, o)| match o.content {
                            BerObjectContent::Tagged(_, _, x) => x.content,
                            x => x,
                        })
                    } else {
                        sut::implicit(der, tag, i, &|x, _, _| {
                            let v = apply_obj(clip(a, x), x).map(|(r, o)| (r, o.content));
                            *want.borrow_mut() = Some(v.clone().map(|z| z.1));
                            v
                        })
                        .map(|(_, o)| o.content)
                    };
                    let w = want.borrow().clone();
                    if let Some(w) = &w {
                        if *w != res {
                            return Err(format!("{nm} (objects): the inner parser returned {w:?}, the caller got {res:?}"));
                        }
                        st.add("object_forms_kept", 1);
                    }
                }
            }
        }
        Ok(())
    }
}
fn own_error(nm: &str, der: bool, i: &'static [u8], e: &NErr<CErr>, twin: Option<NErr<BerError>>, st: &mut Stats) -> Result<(), String> {
    // nothing of the caller's failed: alternatives can still be tried
    if matches!(e, NErr::Failure(_)) {
        return Err(format!("{nm}: the library's own refusal is fatal: {e:?}"));
    }
    // an unreadable header: the caller gets that very error, converted
    let h = if der { der_parser::der::der_read_element_header(i) } else { der_parser::ber::ber_read_element_header(i) };
    if let Err(NErr::Error(x) | NErr::Failure(x)) = h {
        match e {
            NErr::Error(CErr::Ber(y)) | NErr::Failure(CErr::Ber(y)) if *y == x => st.add("header_errors_converted", 1),
            _ => return Err(format!("{nm}: the header is refused with {x:?}, the caller got {e:?}")),
        }
    }
    let Some(t) = twin else { return Err(format!("{nm}: refused with {e:?} without calling the inner parser, but accepted with the library's own error type")) };
    let (a, b) = (norm(e), norm_b(t));
    if a != b {
        return Err(format!("{nm}: the library's own error is {b}, through the caller's conversion it is {a}"));
    }
    st.nontrivial();
    st.add("library_errors_converted", 1);
    st.distinct("library_errors", hash64(&[a.as_bytes()]));
    Ok(())
}
