//! One program, built once per feature and optimization configuration of der-parser: prints what the library answers.
//! feat <inputs> [show <k>]     (inputs: u32 little-endian length, octets, repeated)
#![allow(dead_code)]
#[path = "../../harness/src/api.rs"]
mod api;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/rng.rs"]
mod rng;
#[path = "../../harness/src/snap.rs"]
mod snap;
use api::*;
use der_parser::ber::*;
use snap::*;
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Count<'s>(&'s mut String);
impl<'a> Visit<'a> for Count<'_> {
    fn visit_ber(&mut self, o: &'_ BerObject<'a>, depth: usize) {
        let _ = write!(self.0, "v{}:{} ", depth, o.tag().0);
    }
    fn visit_ber_integer(&mut self, raw: &'a [u8], depth: usize) {
        let _ = write!(self.0, "i{}:{} ", depth, raw.len());
    }
}
fn guard(out: &mut String, what: &str, f: impl FnOnce(&mut String)) {
    let mut s = String::new();
    let ok = catch_unwind(AssertUnwindSafe(|| f(&mut s))).is_ok();
    if ok {
        let _ = writeln!(out, "{what}: {s}");
    } else {
        let _ = writeln!(out, "{what}: PANIC");
    }
}
fn ask(o: &BerObject, b: &Base, out: &mut String) {
    macro_rules! w { ($($x:expr),*) => { $( let _ = write!(out, "{:?};", $x); )* } }
    w!(o.as_i64(), o.as_i32(), o.as_u64(), o.as_u32(), o.as_bool());
    w!(o.as_oid().map(|x| b.s(x.as_bytes())), o.as_oid_val().map(|x| b.s(x.as_bytes())), o.as_oid().map(|x| x.to_string()));
    w!(o.as_optional().map(|x| x.is_some()), o.as_tagged().map(|(c, t, _)| (c as u8, t.0)));
    w!(o.as_bitstring_ref().map(|x| b.s(x.data)), o.as_bitstring().map(|x| b.s(x.data)));
    w!(o.as_sequence().map(|l| l.len()), o.as_set().map(|l| l.len()), o.as_slice().map(|x| b.s(x)), o.as_str().map(|x| b.s(x.as_bytes())));
    w!(o.class() as u8, o.tag().0, len(o.length()), o.is_primitive(), o.is_constructed(), o.is_universal());
    w!(o.assert_constructed(), o.assert_primitive());
    if let Ok(bs) = o.as_bitstring() {
        for n in (0..20).chain([63, 64, bs.data.len() * 8, usize::MAX]) {
            w!(bs.is_set(n));
        }
    }
}
fn walk(o: &BerObject, f: &mut dyn FnMut(&BerObject)) {
    f(o);
    match &o.content {
        BerObjectContent::Sequence(l) | BerObjectContent::Set(l) => l.iter().for_each(|c| walk(c, f)),
        BerObjectContent::Tagged(_, _, c) | BerObjectContent::Optional(Some(c)) => walk(c, f),
        _ => (),
    }
}
fn objects<'a>(i: &'a [u8], f: &mut dyn FnMut(&str, &BerObject<'a>)) {
    if let Ok((_, o)) = der_parser::parse_ber(i) {
        f("ber", &o);
    }
    if let Ok((_, o)) = der_parser::parse_der(i) {
        f("der", &o);
    }
    for t in [0u32, 1, 2] {
        if let Ok((_, o)) = parse_ber_tagged_explicit(t, der_parser::parse_ber)(i) {
            f("explicit", &o);
        }
        if let Ok((_, o)) = parse_ber_tagged_implicit(t, parse_ber_content(Tag::Integer))(i) {
            f("implicit", &o);
        }
    }
    if let Ok((_, o)) = parse_ber_optional(der_parser::parse_ber)(i) {
        f("optional", &o);
    }
}
/// answers common to all configurations
fn common(i: &[u8]) -> String {
    let b = Base(i);
    let mut s = String::new();
    let tag = der_parser::ber::ber_read_element_header(i).map_or(2, |(_, h)| h.tag().0);
    for der in [false, true] {
        let mut ps = all_for(tag, der);
        ps.extend([P::Rec(der, 0), P::Rec(der, 1), P::Rec(der, 3), P::TwoStep(der, 1), P::Tag(der, 2), P::Content(der, 1, 16, 5), P::Content(der, 2, 4, 5)]);
        for p in ps {
            guard(&mut s, &format!("{p:?}"), |o| { let _ = write!(o, "{:?}", run(&p, i)); });
        }
        for set in [false, true] {
            for q in [Q::ListOf(der, set), Q::ListOfV(der, set), Q::Defined(der, set)] {
                guard(&mut s, &format!("{q:?}"), |o| { let _ = write!(o, "{:?}", run_q(&q, i)); });
            }
        }
        for q in [Q::Explicit(der, tag), Q::Implicit(der, tag, 2), Q::Implicit(der, tag, 16), Q::ImplicitG(der, tag, 4), Q::ImplicitFn(der, tag, 12), Q::ExplicitOpt(der, tag), Q::Optional(der), Q::OptTag(der, tag)] {
            guard(&mut s, &format!("{q:?}"), |o| { let _ = write!(o, "{:?}", run_q(&q, i)); });
        }
    }
    guard(&mut s, "objects", |out| {
        objects(i, &mut |w, o| {
            let _ = write!(out, "\n{w} ");
            walk(o, &mut |c| ask(c, &b, out));
            let mut p = o.as_pretty(1, 2);
            let _ = write!(out, "{p:?}|");
            p.set_flag(PrettyPrinterFlag::ShowHeader);
            let _ = write!(out, "{p:?}|");
            p.unset_flag(PrettyPrinterFlag::Recursive);
            let _ = write!(out, "{p:?}|{o:?}|");
            let c = o.clone();
            let _ = write!(out, "{} ", c == *o);
            for e in c {
                let _ = write!(out, "{:?},", b.n(&e));
            }
            for e in o.ref_iter() {
                let _ = write!(out, "{},", e.tag().0);
            }
        });
    });
    guard(&mut s, "visit", |out| {
        if let Ok((_, o)) = der_parser::parse_ber(i) {
            // the visitor wants the object to live as long as the input
            let o: &'static BerObject<'static> = Box::leak(Box::new(unsafe { std::mem::transmute::<BerObject<'_>, BerObject<'static>>(o) }));
            Count(out).run_at(o, 3);
        }
    });
    s
}
#[cfg(feature = "bigint")]
fn bigint(i: &[u8]) -> Option<String> {
    let mut s = String::new();
    guard(&mut s, "bigint", |out| objects(i, &mut |_, o| walk(o, &mut |c| { let _ = write!(out, "{:?} {:?};", c.as_bigint().map(|x| x.to_string()), c.as_biguint().map(|x| x.to_string())); })));
    Some(s)
}
#[cfg(not(feature = "bigint"))]
fn bigint(_: &[u8]) -> Option<String> {
    None
}
#[cfg(feature = "as_bitvec")]
fn bitvec(i: &[u8]) -> Option<String> {
    let mut s = String::new();
    guard(&mut s, "bitvec", |out| objects(i, &mut |_, o| walk(o, &mut |c| { let _ = write!(out, "{:?} {:?};", c.as_bitslice().map(|y| y.to_string()), c.as_bitstring().map(|x| x.as_bitslice().map(|y| y.to_string()))); })));
    Some(s)
}
#[cfg(not(feature = "as_bitvec"))]
fn bitvec(_: &[u8]) -> Option<String> {
    None
}
#[cfg(feature = "serialize")]
fn serialize(i: &[u8]) -> Option<String> {
    let mut s = String::new();
    guard(&mut s, "serialize", |out| objects(i, &mut |_, o| walk(o, &mut |c| { let _ = write!(out, "{:?};", c.to_vec().map_err(|e| e.to_string())); })));
    Some(s)
}
#[cfg(not(feature = "serialize"))]
fn serialize(_: &[u8]) -> Option<String> {
    None
}
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let a: Vec<String> = std::env::args().collect();
    let data = std::fs::read(&a[1]).unwrap();
    let mut inputs = vec![];
    let mut p = 0;
    while p + 4 <= data.len() {
        let n = u32::from_le_bytes(data[p..p + 4].try_into().unwrap()) as usize;
        inputs.push(&data[p + 4..p + 4 + n]);
        p += 4 + n;
    }
    let parts = |i: &[u8]| [Some(common(i)), bigint(i), bitvec(i), serialize(i)];
    if a.len() > 3 {
        for x in parts(inputs[a[3].parse::<usize>().unwrap()]).into_iter().flatten() {
            print!("{x}");
        }
        return;
    }
    let mut out = String::new();
    for i in inputs {
        for x in parts(i) {
            match x {
                Some(x) => { let _ = write!(out, "{:016x} ", rng::hash64(&[x.as_bytes()])); }
                None => out.push_str("- "),
            }
        }
        out.push('\n');
    }
    print!("{out}");
}
