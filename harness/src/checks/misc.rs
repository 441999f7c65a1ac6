//! C20, C24, C25: resources, purity, agreement of entry points
use super::util::*;
use crate::api::{self, P, Q};
use crate::gen::*;
use crate::model::{self, *};
use crate::rt::*;
use crate::snap::*;
use der_parser::asn1_rs::{Any, FromBer};
use der_parser::ber::*;
use der_parser::error::BerResult;
use std::sync::Barrier;

// ---------------------------------------------------------------- C20
/// Deepest nesting that can be read off the headers, whatever the values are (at most `cap`)
fn nesting(i: &[u8], cap: usize) -> usize {
    // (length is definite, end of what may belong to the element)
    let mut stack: Vec<(bool, usize)> = vec![];
    let mut pos = 0;
    let mut deepest = 1;
    let mut guard = 0usize;
    loop {
        while stack.last().is_some_and(|x| pos >= x.1) {
            stack.pop();
        }
        guard += 1;
        let end = stack.last().map_or(i.len(), |x| x.1);
        if pos >= end || guard > 2 * i.len() + 10 {
            return deepest;
        }
        let Ok((h, p)) = model::header(i, pos, end, false) else {
            // not elements after all: go on behind the innermost definite contents
            pos = end;
            continue;
        };
        if h.tag == 0 && h.class == 0 && h.len == Some(0) && stack.last().is_some_and(|x| !x.0) {
            stack.pop();
            pos = p;
            continue;
        }
        match h.len {
            Some(n) if h.cons || h.class == 0 && (h.tag == 16 || h.tag == 17) => stack.push((true, p.saturating_add(n).min(end))),
            Some(n) => {
                pos = p.saturating_add(n).min(end);
                deepest = deepest.max(stack.len() + 1);
                continue;
            }
            None => stack.push((false, end)),
        }
        pos = p;
        deepest = deepest.max(stack.len());
        if deepest >= cap {
            return cap;
        }
    }
}
#[derive(Clone, Copy, Debug)]
enum Op {
    P(u8),
    Q(u8),
}
struct Nowhere;
impl std::fmt::Write for Nowhere {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}
struct Silent(u64);
impl<'a> Visit<'a> for Silent {
    fn visit_ber(&mut self, _: &'_ BerObject<'a>, _: usize) {
        self.0 += 1;
    }
}
impl<'a> VisitMut<'a> for Silent {
    fn visit_ber_mut(&mut self, _: &mut BerObject<'a>, _: usize) {
        self.0 += 1;
    }
}
pub struct C20;
/// octets of memory per octet of input
const MEM: u64 = 700;
/// instrumented basic blocks per octet of input and level of nesting
const WORK: u64 = 200;
impl C20 {
    /// What an operation used is given back when its result is dropped: nothing may grow each time it is repeated.
    fn returns_memory(&self, what: &str, kept: u64, st: &mut Stats, mut f: impl FnMut() -> bool) -> Result<(), String> {
        st.add("given_back", 1);
        if kept == 0 {
            return Ok(());
        }
        // (something may be kept once)
        let mut least = kept;
        for _ in 0..4 {
            st.add("repeated_for_kept_memory", 1);
            least = least.min(kept_by(&mut f));
        }
        if least > 0 {
            return Err(format!("{what}: {least} octets of memory or more are not given back, each time it is done"));
        }
        Ok(())
    }
    fn measure_op(&self, name: &str, n: usize, depth: usize, st: &mut Stats, mut f: impl FnMut() -> bool) -> Result<(), String> {
        let n = n as u64;
        let s0 = steps();
        let l0 = live();
        let (ok, total, peak) = alloc_of(&mut f);
        let kept = live().saturating_sub(l0);
        let work = steps() - s0;
        if ok {
            st.add("operations", 1);
        }
        if n >= 64 {
            st.max("operation_peak_octets_per_1000_octets", peak * 1000 / n);
            st.max("operation_requested_octets_per_1000_octets_and_level", total * 1000 / n / depth as u64);
            st.max("operation_blocks_per_1000_octets_and_level", work * 1000 / (n + 16) / depth as u64);
        }
        let (lim_peak, lim_total, lim_work) = (MEM * n + 8192, (MEM / 2 * n + 8192) * depth as u64, WORK * (n + 16) * depth as u64);
        if peak > lim_peak || total > lim_total || work > lim_work {
            return Err(format!("{name} an object of {n} octets nested {depth} deep: {peak} octets of memory in use (limit {lim_peak}), {total} requested (limit {lim_total}), {work} blocks executed (limit {lim_work})"));
        }
        self.returns_memory(name, kept, st, f)
    }
    fn measure(&self, name: &str, i: &'static [u8], depth: usize, st: &mut Stats, mut f: impl FnMut() -> bool) -> Result<(), String> {
        let n = i.len() as u64;
        let s0 = steps();
        let l0 = live();
        let (ok, total, peak) = alloc_of(&mut f);
        let kept = live().saturating_sub(l0);
        let work = steps() - s0;
        st.add("measured", 1);
        if ok {
            st.nontrivial();
        }
        let lim_mem = MEM * n + 8192;
        let lim_total = (MEM / 2 * n + 8192) * depth as u64;
        let lim_work = WORK * (n + 16) * depth as u64;
        if n >= 64 {
            st.max("peak_octets_per_1000_octets", peak * 1000 / n);
            st.max("requested_octets_per_1000_octets_and_level", total * 1000 / n / depth as u64);
            st.max("blocks_per_1000_octets_and_level", work * 1000 / (n + 16) / depth as u64);
        }
        st.max("peak_octets", peak);
        st.max("blocks", work);
        if peak > lim_mem {
            return Err(format!("{name}: {peak} octets of memory in use for {n} octets of input (limit {lim_mem})"));
        }
        if total > lim_total {
            return Err(format!("{name}: {total} octets of memory requested for {n} octets of input nested {depth} deep (limit {lim_total})"));
        }
        if work > lim_work {
            return Err(format!("{name}: {work} blocks executed for {n} octets of input nested {depth} deep (limit {lim_work})"));
        }
        self.returns_memory(name, kept, st, f)
    }
}
/// Hostile shapes scaled to about n octets
const SHAPES: usize = 33;
fn shape(k: usize, n: usize, g: &mut Gen) -> Vec<u8> {
    let rep = |unit: &[u8], n: usize| -> Vec<u8> { unit.iter().copied().cycle().take(n / unit.len().max(1) * unit.len().max(1)).collect() };
    let seq = |c: &[u8]| model::tlv(0, true, 16, c);
    let nest_def = |mut v: Vec<u8>, d: usize| {
        for _ in 0..d {
            v = model::tlv(0, true, 16, &v);
        }
        v
    };
    let nest_indef = |v: &[u8], d: usize| {
        let mut o = vec![];
        for _ in 0..d {
            o.extend([0x30, 0x80]);
        }
        o.extend(v);
        o.extend(vec![0; 2 * d]);
        o
    };
    match k {
        0 => seq(&rep(&[5, 0], n)),
        1 => seq(&rep(&[0x30, 0], n)),
        2 => model::tlv(0, true, 17, &rep(&[2, 1, 0], n)),
        3 => nest_def(seq(&rep(&[5, 0], n)), 47),
        4 => nest_indef(&rep(&[5, 0], n), 48),
        5 => nest_indef(&seq(&rep(&[2, 1, 1], n)), 30),
        6 => seq(&rep(&[0x30, 0x80, 0, 0], n)),
        7 => nest_indef(&rep(&[0x30, 0x80, 5, 0, 0, 0], n), 20),
        8 => nest_indef(&[], n / 4),
        9 => nest_def(vec![5, 0], (n / 4).min(3000)),
        10 => rep(&[0x30, 0x80], n),
        11 => seq(&rep(&[0x30, 0x84, 0xff, 0xff, 0xff, 0xff], n)),
        12 => {
            // announces far more than is there
            let l = *g.r.pick(&[0x7fff_ffffu32, 0xffff_ffff, 0xffff_fffe, 0x1000_0000, 0x8000_0000]);
            let t = *g.r.pick(&[0x30u8, 0x31, 0x04, 0x02, 0x03, 0x06, 0x0c, 0x1e, 0x1c, 0xa0, 0x17]);
            let mut v = vec![t, 0x84];
            v.extend(l.to_be_bytes());
            v.extend(rep(&[5, 0], n));
            v
        }
        13 => {
            let mut v = vec![0x30, 0x88, 0, 0, 0, 0x7f, 0xff, 0xff, 0xff, 0xff];
            v.extend(rep(&[0x30, 0x84, 0x7f, 0xff, 0xff, 0xff], n));
            v
        }
        14 => model::tlv(0, false, 2, &vec![0; n]),
        15 => model::tlv(0, false, 2, &vec![0xff; n]),
        16 => model::tlv(0, false, *g.r.pick(&[12u32, 18, 19, 22, 26, 27, 20, 21, 25, 7]), &vec![b'1'; n]),
        17 => model::tlv(0, false, 30, &rep(&[0, b'a'], n)),
        18 => model::tlv(0, false, 28, &rep(&[0, 0, 0, b'a'], n)),
        19 => {
            let mut c = vec![0];
            c.extend(vec![0x55; n]);
            model::tlv(0, false, 3, &c)
        }
        20 => model::tlv(0, false, 6, &rep(&[0x81, 0x80, 0x01], n)),
        21 => seq(&rep(&[0xbf, 0x81, 0x80, 0x01, 0x00], n)),
        22 => {
            // many levels, each with many siblings
            let mut v = vec![5u8, 0];
            let w = (n / 45).max(2);
            for _ in 0..45 {
                v.extend(rep(&[5, 0], w));
                v = seq(&v);
            }
            v
        }
        23 => {
            let mut v = vec![5u8, 0];
            let w = (n / 45).max(2);
            for k in 0..45 {
                v.extend(rep(&[0x0c, 1, b'x'], w));
                v = if k % 2 == 0 {
                    seq(&v)
                } else {
                    let mut o = vec![0x31, 0x80];
                    o.extend(v);
                    o.extend([0, 0]);
                    o
                };
            }
            v
        }
        24 => model::tlv(2, true, 0, &nest_indef(&rep(&[4, 1, 7], n), 40)),
        25 | 26 => {
            // a few arbitrary elements over and over
            let mut unit = vec![];
            for _ in 0..1 + g.r.below(3) {
                unit.extend(g.elem(Opt { depth: 1, ..BER }));
            }
            let l = rep(&unit, n.max(unit.len()));
            match g.r.below(4) {
                0 => l,
                1 => model::tlv(0, true, 17, &l),
                2 => nest_indef(&l, 1 + g.r.below(3)),
                _ => seq(&l),
            }
        }
        27..=31 => {
            // items that all differ
            let mut c = vec![];
            let mut j = 0u32;
            while c.len() < n {
                match k {
                    27 => c.extend(model::tlv(2, j % 2 == 0, j, &[])),
                    28 => c.extend([2, 4, 1, (j >> 16) as u8, (j >> 8) as u8, j as u8]),
                    29 => c.extend([6, 5, 0x2a, 0x81, 0x80 | (j >> 14) as u8, 0x80 | (j >> 7) as u8, (j & 0x7f) as u8]),
                    30 => c.extend(model::tlv(0, true, 16 + j % 2, &[4, 3, !(j >> 16) as u8, !(j >> 8) as u8, !j as u8])),
                    _ => c.extend(model::tlv(0, false, [12, 22, 26, 19, 18][j as usize % 5], format!("{j:06}").as_bytes())),
                }
                j += 1;
            }
            model::tlv(0, true, 16 + g.r.below(2) as u32, &c)
        }
        _ => seq(&rep(&[0x18, 15, b'2', b'0', b'0', b'0', b'0', b'1', b'0', b'1', b'0', b'0', b'0', b'0', b'0', b'0', b'Z'], n)),
    }
}
/// `d` levels of elements with identifier `id`: bit 0 of `form`: every second level is a sequence, bit 1: of indefinite
/// length, bit 2: with siblings
fn nested(id: u8, form: usize, d: usize) -> Vec<u8> {
    let mut v = vec![5u8, 0];
    for k in 0..d {
        let id = match id {
            _ if form & 1 != 0 && k % 2 == 1 => 0x30,
            x if x & 0x1f == 31 => x & 0xfe,
            x => x,
        };
        if form & 4 != 0 {
            v = [&[2, 1, k as u8][..], &v, &[5, 0]].concat();
        }
        v = if form & 2 != 0 {
            [&[id, 0x80], &v[..], &[0, 0]].concat()
        } else {
            model::tlv(id >> 6, true, (id & 0x1f) as u32, &v)
        };
    }
    v
}
impl Check for C20 {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "every parser and combinator runs on hostile shapes of growing size and on generated inputs while the allocator counts live and requested memory and the coverage instrumentation counts executed blocks; both are compared with linear bounds in octets present and levels; non-trivial: at least one parser accepted"
    }
    fn fixed(&self, t: Tier, emit: &mut dyn FnMut(Case)) {
        let mut g = Gen::plain(20);
        let sizes: &[usize] = if t == Tier::Quick { &[64, 1000, 8000, 60_000, 400_000] } else { &[64, 1000, 8000, 60_000, 400_000, 1_500_000] };
        for &n in sizes {
            for k in 0..SHAPES {
                for p in 0..if n > 300_000 { 2 } else { 5 } {
                    let mut v = shape(k, n, &mut g);
                    if (27..=31).contains(&k) {
                        v[0] = 0x30 | (p % 2) as u8;
                    }
                    emit(Case::new(v, (n as u64) << 8 | p));
                }
            }
        }
        // long lists of every kind of element, each way of giving its length
        for id in 0..=255u8 {
            let tag = (id & 0x1f) as u32;
            if tag == 31 {
                continue;
            }
            for form in 0..3 {
                let c = match form {
                    0 => vec![],
                    _ if id < 0x40 && tag != 16 && tag != 17 => g.content(tag, DER),
                    _ => vec![5, 0],
                };
                let unit = match form {
                    2 if id & 0x20 != 0 => [&[id, 0x80], &c[..], &[0, 0]].concat(),
                    2 => model::tlv(id >> 6, false, tag, &[&c[..], &c[..]].concat()),
                    _ => model::tlv(id >> 6, id & 0x20 != 0, tag, &c),
                };
                let l = unit.repeat((9000 / unit.len()).max(1));
                emit(Case::new(model::tlv(0, true, if id & 1 == 0 { 16 } else { 17 }, &l), id as u64));
            }
        }
        // every kind of constructed element nested in itself or alternating with a sequence
        for id in (0..=255u8).filter(|x| x & 0x20 != 0 && x & 0x1f != 31) {
            for form in 0..8 {
                for d in [12, 24, 46] {
                    emit(Case::new(nested(id, form, d), id as u64));
                }
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let v = if g.r.chance(1, 8) {
            let (form, d) = (g.r.below(8), g.r.range(3, 60));
            nested(g.r.u64() as u8 | 0x20, form, d)
        } else if g.r.chance(1, 3) {
            let n = g.size(20_000);
            let k = g.r.below(SHAPES);
            let mut v = shape(k, n, g);
            if g.r.chance(1, 2) {
                let o = g.elem(BER);
                mutate(g, &mut v, &o, 1 << 17);
            }
            v
        } else {
            g.input()
        };
        Case::new(v, g.r.u64())
    }
    fn max_input(&self) -> usize {
        1 << 17
    }
    fn step_limit(&self) -> u64 {
        20_000_000_000
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), String> {
        let mut r = c.rng();
        let i = place(0, &c.input);
        let depth = nesting(i, 51) + 1;
        st.max("input_octets", i.len() as u64);
        st.max("nesting", depth as u64);
        let tag = model::header(i, 0, i.len(), false).map_or(16, |(h, _)| h.tag);
        let ops: Vec<Op> = (0..14).map(Op::P).chain((0..10).map(Op::Q)).collect();
        let some = if i.len() > 30_000 { 6 } else { 8 };
        let mut list = vec![Op::P(0), Op::P(1)];
        for _ in 0..some {
            list.push(*r.pick(&ops));
        }
        for op in list {
            let name = format!("{op:?}");
            self.measure(&name, i, depth, st, || match op {
                Op::P(k) => match k {
                    0 => der_parser::parse_ber(i).is_ok(),
                    1 => der_parser::parse_der(i).is_ok(),
                    2 => parse_ber_recursive(i, 50).is_ok(),
                    3 => sut::with_tag(false, i, tag).is_ok(),
                    4 => sut::with_tag(true, i, tag).is_ok(),
                    5 => parse_ber_any(i).is_ok(),
                    6 => parse_ber_any_r(i, 50).is_ok(),
                    7 => sut::slice(false, i, tag).is_ok(),
                    8 => Any::from_ber(i).is_ok_and(|(_, a)| BerObject::try_from(a).is_ok()),
                    9 => ber_read_element_header(i).is_ok_and(|(r, h)| ber_read_element_content_as(r, h.tag(), h.length(), h.is_constructed(), 50).is_ok()),
                    10 => sut::typed().iter().any(|t| t.0 == tag && t.1(i).is_ok()),
                    11 => sut::typed().iter().any(|t| t.0 == tag && t.2(i).is_ok()),
                    12 => sut::int(false, 64, true, i).is_ok() | sut::int(true, 32, false, i).is_ok(),
                    _ => der_parser::der::der_read_element_header(i).is_ok_and(|(r, h)| der_parser::der::der_read_element_content(r, h).is_ok()),
                },
                Op::Q(k) => {
                    let der = k % 2 == 1;
                    let item = |x: &'static [u8]| if der { der_parser::parse_der(x) } else { der_parser::parse_ber(x) };
                    match k / 2 {
                        0 => sut::list_of(der, if tag == 17 { sut::Kind::Set } else { sut::Kind::Seq }, i, &item).is_ok(),
                        1 => sut::list_of_vobj(der, if tag == 17 { sut::Kind::Set } else { sut::Kind::Seq }, i, &mut |x| item(x)).is_ok(),
                        2 => sut::explicit(der, tag, i, &item).is_ok(),
                        3 => sut::implicit_content(der, tag, 16, i).is_ok(),
                        _ => sut::optional(i, &mut |x| item(x)).is_ok(),
                    }
                }
            })?;
        }
        // what is done with the object costs no more than parsing it
        let Ok((rem, mut o)) = der_parser::parse_ber(i) else { return Ok(()) };
        let (mut n, mut depth) = (i.len() - rem.len(), depth);
        if r.chance(1, 3) {
            // under wrappers that only programs build
            let d = r.range(1, 45);
            let kind = r.below(6);
            for k in 0..d {
                let c = match if kind == 5 { r.below(5) } else { kind } {
                    0 => BerObjectContent::Tagged(Class::ContextSpecific, Tag(k as u32), Box::new(o)),
                    1 => BerObjectContent::Optional(Some(Box::new(o))),
                    2 => BerObjectContent::Sequence(vec![o]),
                    3 => BerObjectContent::Set(vec![BerObject::from_obj(BerObjectContent::Null), o]),
                    _ => BerObjectContent::Sequence(vec![o, BerObject::from_obj(BerObjectContent::Optional(None))]),
                };
                o = BerObject::from_obj(c);
            }
            n += 6 * d;
            depth += d;
        }
        let inc = r.below(4);
        for k in 0..10u8 {
            if i.len() > 30_000 && r.chance(1, 2) {
                continue;
            }
            let name = ["printing", "debug_printing", "serializing", "visiting", "visiting_mutably", "copying", "comparing", "iterating", "iterating_by_reference", "viewing"][k as usize];
            self.measure_op(name, n, depth, st, || match k {
                0 => {
                    let mut p = o.as_pretty(0, inc);
                    if n % 2 == 0 {
                        p.set_flag(PrettyPrinterFlag::ShowHeader);
                    }
                    std::fmt::write(&mut Nowhere, format_args!("{p:?}")).is_ok()
                }
                1 => std::fmt::write(&mut Nowhere, format_args!("{o:?}")).is_ok(),
                2 => o.to_vec().is_ok(),
                3 => {
                    let mut v = Silent(0);
                    Visit::run(&mut v, &o);
                    v.0 > 0
                }
                4 => {
                    let mut v = Silent(0);
                    // (a copy: what is visited is not changed, but the signature asks for it)
                    let mut c = o.clone();
                    VisitMut::run(&mut v, &mut c);
                    v.0 > 0
                }
                5 => o.clone().header.length() == o.header.length(),
                6 => o == o,
                7 => o.clone().into_iter().count() > 0,
                8 => o.ref_iter().count() > 0,
                _ => {
                    o.as_slice().is_ok()
                        | o.as_str().is_ok()
                        | o.as_u64().is_ok()
                        | o.as_i64().is_ok()
                        | o.as_u32().is_ok()
                        | o.as_bool().is_ok()
                        | o.as_oid_val().is_ok()
                        | o.as_bitstring().is_ok()
                        | o.as_bigint().is_ok()
                        | o.as_biguint().is_ok()
                        | o.as_sequence().is_ok()
                        | o.as_set().is_ok()
                        | o.as_optional().is_ok()
                        | o.as_tagged().is_ok()
                }
            })?;
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["work is counted in executed basic blocks of der-parser (code of its dependencies is not counted)", "the bounds are linear with fixed constants: 700 octets of memory per octet of input, 200 blocks per octet and level"]
    }
}

// ---------------------------------------------------------------- C25
pub struct C25;
fn same_result(base: &Out, o: &Out) -> bool {
    match (base, o) {
        (Out::Ok(a, OV::Obj(x)), Out::Ok(b, OV::Obj(y))) => a == b && plain(x) == plain(y),
        (Out::Ok(a, x), Out::Ok(b, y)) => a == b && x == y,
        (Out::Ok(..), _) | (_, Out::Ok(..)) => false,
        _ => true,
    }
}
/// the length form repeated inside an opaque object at the top depends on the route
fn plain(n: &N) -> N {
    let mut n = n.clone();
    if let V::Unk(_, _, _, l, s) = &mut n.v {
        *l = Some(s.1);
    }
    n
}
impl Check for C25 {
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> &'static str {
        "each input is given to all entry points that apply to it (generic, typed, by tag, two-step, depth-limited, any-object, conversions, list combinators over a wrapped and an unwrapped copy) and the results compared with each other; every typed parser of another tag has to refuse it; non-trivial: the generic parser accepted a universal element"
    }
    fn fixed(&self, _t: Tier, emit: &mut dyn FnMut(Case)) {
        let mut g = Gen::plain(25);
        for &t in UNIV {
            for k in 0..60u64 {
                let o = if k % 2 == 0 { DER } else { BER };
                let c = g.content(t, o);
                let v = if t == 16 || t == 17 {
                    let mut c = vec![];
                    for _ in 0..k % 5 {
                        c.extend(g.elem(Opt { depth: 2, ..o }));
                    }
                    g.wrap(0, t, &c, Opt { indef: 50, ..o })
                } else {
                    g.tlv(0, k % 13 == 12, t, &c, 10)
                };
                emit(Case::new(v, k));
            }
            // contents of another type under every tag
            for &u in UNIV {
                if u != 16 && u != 17 {
                    let c = g.content(u, BER);
                    emit(Case::new(g.tlv(0, t == 16 || t == 17, t, &c, 5), 3));
                }
            }
        }
        for k in 40..56 {
            let v = g.nest(k, vec![5, 0], BER);
            emit(Case::new(v, k as u64));
        }
        for t in 0..40u32 {
            for class in 0..4u8 {
                for cons in [false, true] {
                    for c in [&[][..], &[0], &[5, 0], &[2, 1, 1], b"a", &[0, 0]] {
                        emit(Case::new(model::tlv(class, cons, t, c), 9));
                    }
                }
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let p = g.r.u64();
        let v = match g.r.below(6) {
            0 => g.elem(DER),
            1 => {
                let t = *g.r.pick(UNIV);
                let c = g.content(t, BER);
                g.tlv(0, t == 16 || t == 17, t, &c, 15)
            }
            _ => g.input(),
        };
        Case::new(v, p)
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), String> {
        let mut r = c.rng();
        let i = place(0, &c.input);
        let Ok((h, hp)) = model::header(i, 0, i.len(), false) else { return Ok(()) };
        let tag = h.tag;
        for der in [false, true] {
            let base = api::run(&P::Gen(der), i);
            // every parser of another tag refuses the element
            for (k, t) in sut::typed().iter().enumerate() {
                if t.0 != tag {
                    let o = api::run(&P::Typed(der, k), i);
                    if o.ok() {
                        return Err(format!("the parser for universal {} (der: {der}) accepts an element with tag {tag}: {}", t.0, o.short()));
                    }
                    st.add("refusals_of_other_tags", 1);
                }
            }
            let other = loop {
                let t = rand_tag(&mut r);
                if t != tag {
                    break t;
                }
            };
            let mut wrong = vec![P::Tag(der, other), P::Slice(der, other), P::AnyTagR(other, 50), P::Tag(der, tag ^ 0x20), P::AnyTagR(tag ^ 0x20, 50)];
            if tag != 2 {
                for w in [32, 64] {
                    wrong.extend([P::Int(der, w, true), P::Int(der, w, false)]);
                }
            }
            for p in wrong {
                let o = api::run(&p, i);
                if o.ok() {
                    return Err(format!("{p:?} accepts an element with tag {tag}: {}", o.short()));
                }
            }
            // entry points that exist for every element
            let mut ps = vec![P::Rec(der, MAXREC)];
            if der {
                ps.push(P::DerContent);
            } else {
                ps.push(P::AnyR(MAXREC));
            }
            if h.class == 0 {
                ps.extend([P::Tag(der, tag), P::TwoStep(der, MAXREC)]);
                if let Some(k) = sut::typed().iter().position(|x| x.0 == tag) {
                    ps.push(P::Typed(der, k));
                    if base.ok() {
                        st.nontrivial();
                    }
                }
                if !der {
                    ps.extend([P::AnyTagR(tag, MAXREC), P::FromAny(false), P::FromAny(true)]);
                }
            }
            for p in ps {
                let o = api::run(&p, i);
                if !same_result(&base, &o) {
                    return Err(format!("{p:?} gives {}, the generic parser {}", o.short(), base.short()));
                }
                st.add("entry_points_compared", 1);
            }
            // contents with a header made by the caller: all three forms
            {
                let P::Made(d, _, t, l, cons, depth) = api::pick_made(&mut r, &i[hp..], der) else { unreachable!() };
                let a = api::run(&P::Made(d, 0, t, l, cons, depth), &i[hp..]);
                for f in [1, 2] {
                    let b = api::run(&P::Made(d, f, t, l, cons, depth), &i[hp..]);
                    if a != b {
                        return Err(format!("contents read as {t} (der: {der}, length {l:?}, constructed {cons}, depth {depth}): {} by the function, {} by the combinator {f}", a.short(), b.short()));
                    }
                }
                st.add("made_headers_compared", 1);
            }
            if h.class == 0 {
                // contents alone
                for f in [1u8, 2] {
                    let o = api::run(&P::Content(der, f, tag, MAXREC), i);
                    let agree = match (&base, &o) {
                        (Out::Ok(a, OV::Obj(n)), Out::Ok(b, OV::Val(v))) => a == b && n.v == *v,
                        (Out::Ok(..), _) | (_, Out::Ok(..)) => false,
                        _ => true,
                    };
                    if !agree {
                        return Err(format!("contents form {f} (der: {der}) gives {}, the generic parser {}", o.short(), base.short()));
                    }
                }
                if tag == 26 && der {
                    let o = out_obj(i, sut::deprecated_visiblestring(i));
                    if !same_result(&base, &o) {
                        return Err("visiblestring and parse_der_visiblestring differ".into());
                    }
                }
            }
            // header and raw contents of an accepted element
            if let Out::Ok(Some(e), OV::Obj(n)) = &base {
                match api::run(&P::Hdr(der), i) {
                    Out::Ok(Some(q), OV::Hdr(hh)) if q == hp && hh == n.h => (),
                    o => return Err(format!("the header reader gives {}, the parser {:?}", o.short(), n.h)),
                }
                match api::run(&P::Slice(der, tag), i) {
                    Out::Ok(q, OV::Sl(_)) if q == Some(*e) => (),
                    o => return Err(format!("the slice parser gives {} for an element of {e} octets", o.short())),
                }
                api::check(&P::Slice(der, tag), i)?;
                st.add("contents_compared", 1);
                if !der {
                    api::check(&P::Any, i)?;
                    match api::run(&P::Any, i) {
                        Out::Ok(q, OV::Obj(a)) if q == Some(*e) && a.h == n.h => (),
                        o => return Err(format!("parse_ber_any gives {}", o.short())),
                    }
                }
                // asn1-rs reads the same element (same dialect for what is accepted)
                if h.class == 0 && tag == 2 && !h.cons {
                    for w in [32u8, 64] {
                        for s in [true, false] {
                            let o = api::run(&P::Int(der, w, s), i);
                            let res = if der { der_parser::parse_der(i) } else { der_parser::parse_ber(i) };
                            let Ok((_, obj)) = res else { continue };
                            let acc = match (w, s) {
                                (32, true) => obj.as_i32().map(i128::from),
                                (32, false) => obj.as_u32().map(i128::from),
                                (_, true) => obj.as_i64().map(i128::from),
                                (_, false) => obj.as_u64().map(i128::from),
                            };
                            match (&o, &acc) {
                                (Out::Ok(_, OV::Int(a)), Ok(b)) if a == b => (),
                                (Out::Ok(_, OV::Int(a)), Err(_)) if *a < 0 => (),
                                (Out::Err(..), Ok(b)) if *b < 0 => (),
                                (Out::Err(..), Err(_)) => (),
                                _ => return Err(format!("{w}-bit parser (signed: {s}) gives {}, the accessor {acc:?}", o.short())),
                            }
                            st.add("integer_ways", 1);
                        }
                    }
                }
            }
            // lists: the element itself, if it is one, and a list holding it
            let gen = |x: &'static [u8]| -> BerResult<'static> { if der { der_parser::parse_der(x) } else { der_parser::parse_ber(x) } };
            let nested_ok = match &base {
                Out::Ok(_, OV::Obj(n)) => model::height(n) < 48,
                Out::Err(k, _) => k != "BerMaxDepth",
                _ => true,
            };
            if h.class == 0 && (tag == 16 || tag == 17) && h.cons && nested_ok {
                self.lists(i, der, tag == 17, &base, &gen, st)?;
            }
            if let (Out::Ok(Some(e), OV::Obj(_)), true) = (&base, nested_ok) {
                let set = r.chance(1, 2);
                let mut body = vec![];
                let k = r.range(1, 3);
                for _ in 0..k {
                    body.extend(&i[..*e]);
                }
                let w = place(3, &model::tlv(0, true, if set { 17 } else { 16 }, &body));
                let b2 = api::run(&P::Gen(der), w);
                self.lists(w, der, set, &b2, &gen, st)?;
                match &b2 {
                    Out::Ok(_, OV::Obj(N { v: V::Seq(l) | V::Set(l), .. })) if l.len() == k => (),
                    o => return Err(format!("an accepted element is not accepted as an item of a list: {}", o.short())),
                }
                st.add("wrapped", 1);
                // and under an explicit tag
                let t = place(4, &model::tlv(2, true, 1, &i[..*e]));
                match api::run_q(&Q::Explicit(der, 1), t) {
                    Out::Ok(Some(q), OV::Obj(N { v: V::Tagged(2, 1, _), .. })) if q == t.len() => (),
                    o => return Err(format!("an accepted element is not accepted under an explicit tag: {}", o.short())),
                }
            }
        }
        Ok(())
    }
}
impl C25 {
    fn lists(&self, i: &'static [u8], der: bool, set: bool, base: &Out, gen: &dyn Fn(&'static [u8]) -> BerResult<'static>, st: &mut Stats) -> Result<(), String> {
        let kind = if set { sut::Kind::Set } else { sut::Kind::Seq };
        let b = Base(i);
        let a = out_obj(i, sut::list_of(der, kind, i, &gen));
        if !same_list(base, &a) {
            return Err(format!("the list combinator (der: {der}, set: {set}) gives {}, the generic parser {}", a.short(), base.short()));
        }
        let v = out(i, sut::list_of_vobj(der, kind, i, &mut |x| gen(x)), |l| OV::List(l.iter().map(|x| b.n(x)).collect()));
        let ok = match (base, &v) {
            (Out::Ok(p, OV::Obj(N { v: V::Seq(l) | V::Set(l), .. })), Out::Ok(q, OV::List(m))) => p == q && l == m,
            (Out::Ok(..), _) | (_, Out::Ok(..)) => false,
            _ => true,
        };
        if !ok {
            return Err(format!("the vector form of the list combinator (der: {der}, set: {set}) gives {}, the generic parser {}", v.short(), base.short()));
        }
        let d = out_obj(
            i,
            sut::defined(der, kind, i, &mut |x| {
                let mut l = vec![];
                let mut x = x;
                while !x.is_empty() {
                    let (r, o) = gen(x)?;
                    l.push(o);
                    x = r;
                }
                Ok((x, l))
            }),
        );
        if !same_list(base, &d) {
            return Err(format!("the structure combinator (der: {der}, set: {set}) gives {}, the generic parser {}", d.short(), base.short()));
        }
        st.add("list_ways", 3);
        Ok(())
    }
}
/// the list combinators build their own header: compare contents and remainder
fn same_list(base: &Out, o: &Out) -> bool {
    match (base, o) {
        (Out::Ok(a, OV::Obj(x)), Out::Ok(b, OV::Obj(y))) => a == b && x.v == y.v && (x.h.class, x.h.tag, x.h.cons) == (y.h.class, y.h.tag, y.h.cons),
        (Out::Ok(..), _) | (_, Out::Ok(..)) => false,
        _ => true,
    }
}

// ---------------------------------------------------------------- C24
/// Everything the library says about an input, without addresses
pub fn digest(i: &'static [u8], seed: u64) -> u64 {
    let mut r = Rng::new(seed);
    let mut parts: Vec<String> = vec![];
    let b = Base(i);
    let tag = model::header(i, 0, i.len(), false).map_or(2, |(h, _)| h.tag);
    for der in [false, true] {
        for p in api::all_for(tag, der) {
            parts.push(format!("{:?}", api::run(&p, i)));
        }
        for q in [Q::ListOf(der, tag == 17), Q::Defined(der, tag == 17), Q::Explicit(der, tag), Q::Implicit(der, tag, 16), Q::ExplicitOpt(der, tag), Q::Optional(der)] {
            parts.push(format!("{:?}", api::run_q(&q, i)));
        }
        let o = if der { der_parser::parse_der(i) } else { der_parser::parse_ber(i) };
        if let Ok((_, o)) = o {
            ask(&o, b, &mut r, &mut parts);
            if i.len() < 3000 {
                let mut p = o.as_pretty(1, 2);
                p.set_flag(PrettyPrinterFlag::ShowHeader);
                parts.push(format!("{p:?} {:?}", o.as_pretty(0, 1)));
                parts.push(format!("{:?}", b.n(&o)));
            }
            parts.push(format!("{:?}", o.to_vec().map(|v| hash64(&[&v])).ok()));
            let s: &'static BerObject<'static> = unsafe { &*(&o as *const BerObject<'static>) };
            let mut l = Log { base: b, ev: vec![] };
            l.run(s);
            parts.push(format!("{} {:?}", l.ev.len(), if l.ev.len() < 200 { Some(&l.ev) } else { None }));
        }
    }
    let refs: Vec<&[u8]> = parts.iter().map(|s| s.as_bytes()).collect();
    hash64(&refs)
}
/// what differs between two runs (for the report)
struct Shared<T>(T);
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}
impl<T> Shared<T> {
    fn get(&self) -> &T {
        &self.0
    }
}
/// true iff the type is Send and Sync, without requiring it
mod auto {
    use std::marker::PhantomData;
    pub struct Is<T: ?Sized>(pub PhantomData<T>);
    #[allow(dead_code)]
    pub trait No {
        fn yes(&self) -> bool {
            false
        }
    }
    impl<T: ?Sized> No for &Is<T> {}
    pub trait Yes {
        fn yes(&self) -> bool {
            true
        }
    }
    impl<T: ?Sized + Send + Sync> Yes for Is<T> {}
}
macro_rules! threadsafe {
    ($t:ty) => {{
        #[allow(unused_imports)]
        use auto::{No, Yes};
        let is = &auto::Is::<$t>(std::marker::PhantomData);
        (is.yes(), stringify!($t))
    }};
}
/// Cases of the long-history workload: the operation, and how often it is repeated
const HISTORY: u64 = 0x0c24_0c24 << 32;
fn history_ops(i: &[u8]) -> Vec<P> {
    let tag = model::header(i, 0, i.len(), false).map_or(2, |(h, _)| h.tag);
    let high = model::ber(i, MAXREC).map_or(1, |(o, _)| model::height(&o));
    let mut v = vec![];
    for der in [false, true] {
        v.extend(api::all_for(tag, der));
        v.push(P::Rec(der, high));
        v.push(P::TwoStep(der, high));
    }
    v.extend([P::AnyR(high), P::AnyTagR(tag, high)]);
    v
}
fn history_qs(tag: u32) -> Vec<Q> {
    let mut v = vec![];
    for der in [false, true] {
        v.extend([Q::ListOf(der, tag == 17), Q::Defined(der, tag == 17), Q::Explicit(der, tag), Q::Implicit(der, tag, 16), Q::ExplicitOpt(der, tag), Q::Optional(der)]);
    }
    v
}
/// The same operation many times: the last answer is the first one
fn history(i: &'static [u8], which: usize, reps: u64, st: &mut Stats) -> Result<(), String> {
    let ops = history_ops(i);
    let tag = model::header(i, 0, i.len(), false).map_or(2, |(h, _)| h.tag);
    let qs = history_qs(tag);
    st.add("repetitions", reps);
    let end = |k: u64, what: String| Err(format!("{what} answers differently when done for time {k}"));
    if which < ops.len() {
        let p = &ops[which];
        let first = api::run(p, i);
        for k in 1..reps {
            if api::run(p, i) != first {
                return end(k + 1, format!("{p:?}"));
            }
        }
    } else if which < ops.len() + qs.len() {
        let q = &qs[which - ops.len()];
        let first = api::run_q(q, i);
        for k in 1..reps {
            if api::run_q(q, i) != first {
                return end(k + 1, format!("{q:?}"));
            }
        }
    } else {
        let Ok((_, o)) = der_parser::parse_ber(i) else { return Ok(()) };
        let s: &'static BerObject<'static> = unsafe { &*(&o as *const BerObject<'static>) };
        let b = Base(i);
        let once = |part: usize| -> Vec<String> {
            let mut v = vec![];
            match part {
                0 => ask(&o, b, &mut Rng::new(1), &mut v),
                1 => {
                    let mut p = o.as_pretty(1, 2);
                    p.set_flag(PrettyPrinterFlag::ShowHeader);
                    v.push(format!("{p:?}"));
                }
                2 => v.push(format!("{:?}", o.to_vec().ok())),
                3 => {
                    let mut l = Log { base: b, ev: vec![] };
                    l.run(s);
                    v.push(format!("{:?}", l.ev));
                }
                4 => v.push(format!("{:?}", cookie_factory::gen_simple(ber_encode_tagged_implicit(Tag(3), Class::Private, s), vec![]).ok())),
                _ => v.push(format!("{} {} {:?}", o.clone() == o, o.clone().into_iter().count(), cookie_factory::gen_simple(ber_encode_header(&o.header), vec![]).ok())),
            }
            v
        };
        let part = which - ops.len() - qs.len();
        let first = once(part);
        for k in 1..reps {
            if once(part) != first {
                return end(k + 1, format!("object operation {part}"));
            }
        }
    }
    Ok(())
}
pub struct C24;
impl Check for C24 {
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> &'static str {
        "a digest of everything the library answers about an input (all entry points, accessors, printing, serialization, visits) is compared between repetitions, after other hostile inputs, at other addresses and alignments, and between threads working at the same time on the same and on different inputs and on one shared object; between processes that handle the same inputs in different orders; non-trivial: at least one parser accepted"
    }
    fn fixed(&self, t: Tier, emit: &mut dyn FnMut(Case)) {
        let mut g = Gen::plain(24);
        // long histories
        let reps = if t == Tier::Quick { 66_000 } else { 300_000 };
        for i in [&[2u8, 1, 0x7f][..], &[0x30, 0x80, 0x31, 2, 5, 0, 0, 0], &[3, 3, 4, 0x5a, 0xf0], &[0x82, 2, 5, 0]] {
            let n = history_ops(i).len() + history_qs(2).len() + 6;
            for k in 0..n {
                emit(Case::new(i.to_vec(), HISTORY | (k as u64) << 24 | reps));
            }
        }
        // every kind of small element (its parts will lie at edges of pages)
        for id in (0..=255u8).filter(|x| x & 0x1f != 31) {
            for form in 0..3u64 {
                let c = match form {
                    0 => vec![],
                    1 => vec![5, 0],
                    _ => {
                        let mut c = g.content((id & 0x1f) as u32, BER);
                        c.truncate(8);
                        c
                    }
                };
                if form != 1 || id & 0x20 != 0 {
                    emit(Case::new(model::tlv(id >> 6, id & 0x20 != 0, (id & 0x1f) as u32, &c), form));
                }
            }
        }
        for &t in UNIV {
            for k in 0..12u64 {
                let c = g.content(t, if k % 2 == 0 { DER } else { BER });
                emit(Case::new(g.tlv(0, t == 16 || t == 17, t, &c, 10), k));
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let p = g.r.u64();
        let v = match g.r.below(4) {
            0 => g.elem(DER),
            _ => g.input(),
        };
        Case::new(v, p)
    }
    fn max_input(&self) -> usize {
        1 << 14
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), String> {
        if c.input.len() > 1 << 15 {
            return Ok(());
        }
        let mut r = c.rng();
        let i = place(0, &c.input);
        let seed = c.param;
        if seed >> 32 == HISTORY >> 32 {
            st.nontrivial();
            return history(i, (seed >> 24 & 0xff) as usize, seed & 0xff_ffff, st);
        }
        let d0 = digest(i, seed);
        if der_parser::parse_ber(i).is_ok() {
            st.nontrivial();
        }
        st.distinct("digests", d0);
        let diff = |what: &str| Err(format!("the answers about the same input differ: {what}"));
        if digest(i, seed) != d0 {
            return diff("second time");
        }
        // other inputs in between: the input cut, extended, changed
        let mut noise = c.input.clone();
        for k in 0..3 {
            match k {
                0 => noise.truncate(c.input.len() / 2),
                1 => noise.extend(&c.input),
                _ => {
                    for x in noise.iter_mut() {
                        if r.chance(1, 8) {
                            *x ^= r.byte();
                        }
                    }
                }
            }
            let j = place(1, &noise);
            digest(j, seed ^ k);
            st.add("inputs_in_between", 1);
        }
        if digest(i, seed) != d0 {
            return diff("after other inputs");
        }
        // the same place holding other octets in between
        let k = place(0, &noise);
        digest(k, seed);
        let i = place(0, &c.input);
        if digest(i, seed) != d0 {
            return diff("after other octets at the same address");
        }
        // other addresses
        for off in 0..3 {
            let off = off * 3 + r.below(3);
            let mut v = vec![0xA5; off];
            v.extend(&c.input);
            v.extend(vec![0x5A; r.below(20)]);
            let p = place(2, &v);
            let j = &p[off..off + c.input.len()];
            if digest(j, seed) != d0 {
                return diff("at another address");
            }
            st.add("addresses", 1);
        }
        // parts of the input at the edge of a page (the end already was)
        let n = c.input.len();
        let edges: Vec<usize> = if n < 12 { (0..n).collect() } else { (0..2).map(|_| r.below(n)).collect() };
        for e in edges {
            let mut v = vec![0x5A];
            v.extend(&c.input);
            v.extend(vec![0xA5; 4096 - (n - e) % 4096]);
            let p = place(2, &v);
            let j = &p[1..1 + n];
            debug_assert!((j.as_ptr() as usize + e) % 4096 == 0);
            if digest(j, seed) != d0 {
                return diff("at the edge of a page");
            }
            st.add("page_edges", 1);
        }
        if i != &c.input[..] {
            return Err("the input was modified".into());
        }
        // threads
        if r.chance(1, 4) {
            let other = place(3, &noise);
            let dn = digest(other, seed);
            let n = r.range(2, 6);
            let bar = Barrier::new(n);
            let shared = der_parser::parse_ber(i).ok().map(|x| Shared(x.1));
            let asked = shared.as_ref().map(|o| {
                let mut p = vec![];
                ask(o.get(), Base(i), &mut Rng::new(9), &mut p);
                p
            });
            let bad: Vec<Option<&str>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..n)
                    .map(|k| {
                        let (bar, shared, asked) = (&bar, &shared, &asked);
                        s.spawn(move || {
                            bar.wait();
                            for round in 0..2 {
                                let mine = (k + round) % 2 == 0;
                                let d = if mine { digest(i, seed) } else { digest(other, seed) };
                                if d != if mine { d0 } else { dn } {
                                    return Some("in another thread, others working at the same time");
                                }
                                if let (Some(o), Some(a)) = (shared, asked) {
                                    let mut p = vec![];
                                    ask(o.get(), Base(i), &mut Rng::new(9), &mut p);
                                    if p != *a {
                                        return Some("a shared object in another thread");
                                    }
                                }
                            }
                            None
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or(Some("panic in a thread"))).collect()
            });
            st.add("threads", n as u64);
            st.add("thread_rounds", 1);
            if let Some(w) = bad.into_iter().flatten().next() {
                return diff(w);
            }
        }
        if i != &c.input[..] {
            return Err("the input was modified".into());
        }
        Ok(())
    }
    fn after(&self, a: &RunArgs, rep: &mut Report) {
        // types stay usable from several threads
        for (ok, name) in [threadsafe!(BerObject<'static>), threadsafe!(BerObjectContent<'static>), threadsafe!(BitStringObject<'static>), threadsafe!(PrettyBer<'static>), threadsafe!(BerObjectRefIterator<'static>), threadsafe!(BerObjectIntoIterator<'static>)] {
            if !ok {
                let p = a.replays.join("C24-types.txt");
                write_replay(&p, "C24", &Case::new(vec![], 0), &format!("{name} is not Send + Sync"));
                rep.message = format!("{name} can no longer be shared between threads");
                rep.violation = Some(p);
                return;
            }
        }
        // fresh processes, same inputs, other orders and environments
        let n = if a.tier == Tier::Quick { 400 } else { 4000 };
        let exe = std::env::current_exe().unwrap();
        let mut runs = vec![];
        for (order, env) in [("forward", None), ("reverse", None), ("shuffle", Some(("LANG", "tr_TR.UTF-8"))), ("alone", Some(("TZ", "Asia/Kathmandu"))), ("forward", Some(("RUST_BACKTRACE", "1"))), ("twice", None)] {
            let mut cmd = std::process::Command::new(&exe);
            cmd.args(["digests", &a.seed.to_string(), &n.to_string(), order]);
            if let Some((k, v)) = env {
                cmd.env(k, v);
            }
            match cmd.output() {
                Ok(o) if o.status.success() => runs.push((order, env, String::from_utf8_lossy(&o.stdout).to_string())),
                Ok(o) => {
                    rep.inconclusive = Some(format!("digest process failed: {:?} {}", o.status, String::from_utf8_lossy(&o.stderr)));
                    return;
                }
                Err(e) => {
                    rep.inconclusive = Some(format!("digest process: {e}"));
                    return;
                }
            }
        }
        let first: Vec<&str> = runs[0].2.lines().collect();
        for (order, env, text) in &runs[1..] {
            for (k, l) in text.lines().enumerate() {
                // "alone" handles only some of them
                if !l.ends_with('-') && first.get(k) != Some(&l) {
                    let mut g = Gen::plain(a.seed ^ 0x2424 ^ k as u64);
                    let input = order_case(&mut g);
                    let p = a.replays.join("C24-order.txt");
                    write_replay(&p, "C24", &Case::new(input, k as u64), &format!("answers differ between a process handling inputs forward and one handling them {order} ({env:?})"));
                    rep.message = format!("the answers about input {k} depend on the order of handling ({order}) or the environment ({env:?})");
                    rep.violation = Some(p);
                    return;
                }
            }
        }
        rep.counts.insert("processes_compared".into(), runs.len() as u64);
        rep.counts.insert("inputs_per_process".into(), n as u64);
    }
}
fn order_case(g: &mut Gen) -> Vec<u8> {
    let mut v = g.input();
    v.truncate(4000);
    v
}
/// process mode: print one digest per input, handled in the given order
pub fn digests(seed: u64, n: usize, order: &str) -> i32 {
    install_panic_hook();
    let mut idx: Vec<usize> = (0..n).collect();
    match order {
        "reverse" => idx.reverse(),
        "shuffle" => {
            let mut r = Rng::new(seed);
            for k in (1..n).rev() {
                idx.swap(k, r.below(k + 1));
            }
        }
        "alone" => idx.retain(|k| k % 40 == 7),
        "twice" => {
            let c = idx.clone();
            idx.extend(c);
        }
        _ => (),
    }
    let mut out = vec![String::from("-"); n];
    // all inputs exist before the library is used for the first time (the generator learns from it)
    let inputs: Vec<Vec<u8>> = (0..n).map(|k| order_case(&mut Gen::plain(seed ^ 0x2424 ^ k as u64))).collect();
    for k in idx {
        let i = place(0, &inputs[k]);
        out[k] = match no_panic(|| digest(i, k as u64)) {
            Ok(d) => format!("{d:016x}"),
            Err(e) => e,
        };
    }
    println!("{}", out.join("\n"));
    0
}
