//! C19: programs with object identifiers written in them.
use super::prog::{cargo, compile_error};
use crate::rt::*;
use std::fmt::Write as _;
use std::path::Path;
use std::process::{Command, Stdio};

pub const RULE: &str = "a program with thousands of generated identifiers (absolute and relative; components at every power of two up to 2^300, every first pair, random ones; through the identifier macro in object, raw, pattern and constant position and through the encoding macro) is compiled and run, and what the macros produced is compared with an independent base-128 encoder and with identifiers decoded from the wire; programs with one invalid identifier each must not compile while their valid twins do; non-trivial: every distinct identifier";

/// a component: base-128 digits, most significant first, no leading zero (except zero itself)
#[derive(Clone, PartialEq, Eq, Hash)]
struct Comp(Vec<u8>);
impl Comp {
    fn of(mut x: u128) -> Comp {
        let mut v = vec![(x & 0x7f) as u8];
        x >>= 7;
        while x > 0 {
            v.push((x & 0x7f) as u8);
            x >>= 7;
        }
        v.reverse();
        Comp(v)
    }
    /// bits, most significant first
    fn bits(b: &[bool]) -> Comp {
        let mut v = vec![];
        let pad = (7 - b.len() % 7) % 7;
        let all: Vec<bool> = std::iter::repeat_n(false, pad).chain(b.iter().copied()).collect();
        for c in all.chunks(7) {
            v.push(c.iter().fold(0u8, |a, &x| a << 1 | x as u8));
        }
        while v.len() > 1 && v[0] == 0 {
            v.remove(0);
        }
        if v.is_empty() {
            v.push(0);
        }
        Comp(v)
    }
    fn bit_len(&self) -> usize {
        (self.0.len() - 1) * 7 + (8 - self.0[0].leading_zeros() as usize)
    }
    fn plus(&self, n: u8) -> Comp {
        let mut v = self.0.clone();
        let mut carry = n as u16;
        for d in v.iter_mut().rev() {
            let x = *d as u16 + carry;
            *d = (x & 0x7f) as u8;
            carry = x >> 7;
        }
        if carry > 0 {
            v.insert(0, carry as u8);
        }
        Comp(v)
    }
    fn enc(&self, out: &mut Vec<u8>) {
        for (k, d) in self.0.iter().enumerate() {
            out.push(if k + 1 < self.0.len() { d | 0x80 } else { *d });
        }
    }
    fn decimal(&self) -> String {
        let mut dec: Vec<u8> = vec![0]; // least significant first
        for &d in &self.0 {
            let mut carry = d as u32;
            for x in dec.iter_mut() {
                let y = *x as u32 * 128 + carry;
                *x = (y % 10) as u8;
                carry = y / 10;
            }
            while carry > 0 {
                dec.push((carry % 10) as u8);
                carry /= 10;
            }
        }
        dec.iter().rev().map(|d| (b'0' + d) as char).collect()
    }
}
#[derive(Clone, PartialEq, Eq, Hash)]
struct Id {
    rel: bool,
    c: Vec<Comp>,
}
impl Id {
    fn dotted(&self) -> String {
        self.c.iter().map(|c| c.decimal()).collect::<Vec<_>>().join(".")
    }
    fn encoding(&self) -> Vec<u8> {
        let mut v = vec![];
        if self.rel {
            self.c.iter().for_each(|c| c.enc(&mut v));
        } else {
            self.c[1].plus(self.c[0].0[0] * 40).enc(&mut v);
            self.c[2..].iter().for_each(|c| c.enc(&mut v));
        }
        v
    }
    /// what the identifier macro (asn1-rs) can express
    fn small(&self) -> bool {
        self.c.iter().all(|c| c.bit_len() <= 128) && (self.rel || self.c[1].bit_len() <= 7 && self.c[1].0[0] < 40)
    }
}
fn edge_comps(max_bits: usize) -> Vec<Comp> {
    let mut v: Vec<Comp> = (0..300u128).map(Comp::of).collect();
    for k in 1..max_bits {
        let mut b = vec![true];
        b.extend(vec![false; k]);
        v.push(Comp::bits(&b)); // 2^k
        v.push(Comp::bits(&vec![true; k])); // 2^k - 1
        b[k] = true;
        v.push(Comp::bits(&b)); // 2^k + 1
    }
    v
}
fn rand_comp(r: &mut Rng, max_bits: usize) -> Comp {
    let n = match r.below(4) {
        0 => r.range(1, 8),
        1 => r.range(1, 35),
        2 => r.range(1, 130),
        _ => r.range(1, max_bits),
    };
    let mut b: Vec<bool> = (0..n).map(|_| r.chance(1, 2)).collect();
    b[0] = true;
    if r.chance(1, 4) {
        // runs of zeroes between the groups
        let (x, y) = (r.below(n), r.below(n));
        for z in &mut b[x.min(y) + usize::from(x.min(y) == 0)..x.max(y).max(1)] {
            *z = false;
        }
    }
    Comp::bits(&b)
}
fn rand_comp_exact(r: &mut Rng, bits: usize) -> Comp {
    let mut b: Vec<bool> = (0..bits).map(|_| r.chance(1, 2)).collect();
    b[0] = true;
    Comp::bits(&b)
}
fn first_pair(r: &mut Rng, max_bits: usize) -> [Comp; 2] {
    match r.below(4) {
        0 => [Comp::of(0), Comp::of(r.below(40) as u128)],
        1 => [Comp::of(1), Comp::of(r.below(40) as u128)],
        2 => [Comp::of(2), Comp::of(r.below(40) as u128)],
        _ => [Comp::of(2), rand_comp(r, max_bits)],
    }
}
fn generate(seed: u64, tier: Tier) -> Vec<Id> {
    let mut r = Rng::new(seed ^ 0x19);
    let mut v = vec![];
    let id = |rel: bool, c: Vec<Comp>| Id { rel, c };
    for a in 0..3u128 {
        for b in 0..(if a == 2 { 260 } else { 40 }) {
            v.push(id(false, vec![Comp::of(a), Comp::of(b)]));
            if b % 7 == 3 {
                v.push(id(false, vec![Comp::of(a), Comp::of(b), Comp::of(0), Comp::of(b * 1000)]));
            }
        }
    }
    for (k, c) in edge_comps(300).into_iter().enumerate() {
        v.push(id(true, vec![c.clone()]));
        v.push(id(false, vec![Comp::of(1), Comp::of(2), c.clone()]));
        if k % 2 == 0 {
            v.push(id(false, vec![Comp::of(2), c.clone()]));
            v.push(id(true, vec![c.clone(), Comp::of(5), c]));
        } else {
            v.push(id(false, vec![Comp::of(2), Comp::of(5), c.clone(), c, Comp::of(0)]));
        }
    }
    // the same component again and again, in every position, and identifiers of every length in octets
    for x in [0u128, 1, 2, 39, 40, 79, 80, 127, 128, 129, 255, 256, 16383, 16384, 2097151, 2097152, 1 << 32, 1 << 63, u128::MAX] {
        for n in [2usize, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 31, 33] {
            v.push(id(true, vec![Comp::of(x); n]));
            let f = Comp::of(if n % 2 == 0 { 0 } else { 2 });
            let second = if n % 2 == 0 && x >= 40 { Comp::of(0) } else { Comp::of(x) };
            let mut c = vec![f, second];
            c.extend(vec![Comp::of(x); n]);
            c.push(Comp::of(5));
            v.push(id(false, c));
            let mut c = vec![Comp::of(x ^ 1)];
            c.extend(vec![Comp::of(x); n]);
            c.push(Comp::of(x / 2));
            v.push(id(true, c));
        }
    }
    for n in (60..70).chain(120..135).chain(250..260).chain([511, 512, 513]) {
        v.push(id(true, (0..n).map(|k| Comp::of(k as u128 % 128)).collect()));
        let mut c = vec![Comp::of(1), Comp::of(3)];
        c.extend((0..n).map(|_| Comp::of(r.below(128) as u128)));
        v.push(id(false, c));
    }
    // few different small components
    for _ in 0..150 {
        let k = r.range(1, 20);
        let few: Vec<Comp> = (0..r.range(1, 3)).map(|_| { let b = r.range(1, 20); rand_comp(&mut r, b) }).chain([Comp::of(0)]).collect();
        let mut c = if r.chance(1, 2) { vec![] } else { first_pair(&mut r, 20).to_vec() };
        let rel = c.is_empty();
        c.extend((0..k).map(|_| r.pick(&few).clone()));
        v.push(id(rel, c));
    }
    for b in [601usize, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097] {
        v.push(id(true, vec![rand_comp_exact(&mut r, b)]));
        v.push(id(false, vec![Comp::of(2), rand_comp_exact(&mut r, b), Comp::of(3), rand_comp_exact(&mut r, b)]));
    }
    let n = match tier {
        Tier::Quick => 2500,
        Tier::Thorough => 20000,
    };
    for _ in 0..n {
        let rel = r.chance(1, 3);
        let big = if r.chance(1, 2) { 128 } else { 600 };
        let mut c = vec![];
        if !rel {
            c.extend(first_pair(&mut r, big));
        }
        let extra = if r.chance(1, 30) { r.range(20, 60) } else { r.below(9) };
        for _ in 0..extra + usize::from(rel) {
            c.push(rand_comp(&mut r, big));
        }
        v.push(id(rel, c));
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v
}
fn bytes_lit(b: &[u8]) -> String {
    format!("&[{}]", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}
/// macro arguments that are not an identifier
const BAD: [&str; 24] = [
    "3.1", "3.0.1", "4.0", "5.39", "6.1", "6.39.2", "7.1", "9.9.9", "40.1", "255.1", "256.1.1", "65536.1", "4294967296.1", "4294967297.2", "0.40", "1.40", "1.40.7", "0.99.1", "1.128", "1.256",
    "0.4294967296", "1.18446744073709551617.3", "1", "2",
];
const BAD_ENC: [&str; 8] = ["18446744073709551616.1", "18446744073709551617.2.3", "340282366920938463463374607431768211457.1", "1.340282366920938463463374607431768211456", "39", "", "1.x", "rel x"];
const BAD_OID: [&str; 3] = ["5", "39", "1.x.2"];

pub fn c19(a: &RunArgs, root: &Path) -> Report {
    let mut rep = Report::default();
    let dir = root.join("build/c19");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(dir.join("src/bin")).expect("scratch");
    for f in ["Cargo.toml", "Cargo.lock"] {
        std::fs::copy(root.join("oidprog").join(f), dir.join(f)).expect("template");
    }
    let ids = generate(a.seed, a.tier);
    // ---- the program
    let mut p = String::from("#![allow(clippy::all)]\nuse der_parser::{ber::*, oid, Oid};\nuse der_oid_macro::encode_oid;\n");
    p += "struct E { k: usize, enc: &'static [u8], wire: &'static [u8] }\nstatic ENC: &[E] = &[\n";
    let wire = |i: &Id| {
        let e = i.encoding();
        let mut w = vec![if i.rel { 0x0d } else { 6 }];
        if e.len() < 128 {
            w.push(e.len() as u8);
        } else {
            w.extend([0x82, (e.len() >> 8) as u8, e.len() as u8]);
        }
        w.extend(e);
        w
    };
    for (k, i) in ids.iter().enumerate() {
        let _ = writeln!(p, "E {{ k: {k}, enc: &encode_oid!({}{}), wire: {} }},", if i.rel { "rel " } else { "" }, i.dotted(), bytes_lit(&wire(i)));
    }
    p += "];\n";
    // (a long relative identifier trips over a line break in asn1-rs, which is not part of this repository)
    let small: Vec<usize> = (0..ids.len()).filter(|&k| ids[k].small() && !(ids[k].rel && ids[k].dotted().len() > 60)).collect();
    p += "fn oids() -> Vec<(usize, Oid<'static>)> {\nlet mut v: Vec<(usize, Oid<'static>)> = Vec::new();\n";
    // several functions: one huge one is slow to compile
    for (n, c) in small.chunks(200).enumerate() {
        let _ = writeln!(p, "oids{n}(&mut v);");
        let _ = c;
    }
    p += "v }\n";
    for (n, c) in small.chunks(200).enumerate() {
        let _ = writeln!(p, "#[inline(never)] fn oids{n}(v: &mut Vec<(usize, Oid<'static>)>) {{");
        for &k in c {
            let _ = writeln!(p, "v.push(({k}, oid!({}{})));", if ids[k].rel { "rel " } else { "" }, ids[k].dotted());
        }
        p += "}\n";
    }
    // constants, in pattern position
    let pats: Vec<usize> = small.iter().copied().filter(|&k| !ids[k].rel).step_by(3).take(400).collect();
    for &k in &pats {
        let _ = writeln!(p, "const K{k}: &[u8] = &oid!(raw {});", ids[k].dotted());
        if k % 5 == 0 {
            let _ = writeln!(p, "const O{k}: Oid<'static> = oid!({});", ids[k].dotted());
        }
    }
    p += "fn which(b: &[u8]) -> Option<usize> { match b {\n";
    for &k in &pats {
        let _ = writeln!(p, "K{k} => Some({k}),");
    }
    p += "_ => None } }\n";
    p += r#"
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn dec<'a>(w: &'a [u8]) -> Oid<'a> { let (r, o) = der_parser::parse_der(w).expect("wire form"); assert!(r.is_empty()); o.as_oid_val().expect("oid") }
fn main() {
    for e in ENC {
        println!("E {} {} {}", e.k, hex(e.enc), hex(dec(e.wire).as_bytes()) == hex(e.enc));
    }
    println!("Z 0 {} {} {}", hex(&encode_oid!(0)), hex(oid!(0).as_bytes()), dec(&[6, 1, 0]) == oid!(0));
    for (k, o) in oids() {
        let w = ENC[k].wire;
        let d = dec(w);
        println!("O {} {} {} {}", k, hex(o.as_bytes()), d == o, o == d && d.as_bytes() == o.as_bytes());
    }
    for e in ENC {
        if let Some(x) = which(dec(e.wire).as_bytes()) { println!("P {} {}", e.k, x); }
    }
"#;
    for &k in pats.iter().filter(|k| *k % 5 == 0) {
        let _ = writeln!(p, "println!(\"C {k} {{}}\", hex(O{k}.as_bytes()));");
    }
    p += "}\n";
    std::fs::write(dir.join("src/main.rs"), &p).expect("program");
    // ---- programs that must not compile, each with a valid twin of the same shape
    let mut bad: Vec<(String, String)> = vec![];
    let prog_enc = |x: &str| format!("fn main() {{ let b: &[u8] = &der_oid_macro::encode_oid!({x}); println!(\"{{:?}}\", b); }}\n");
    let prog_oid = |x: &str| format!("fn main() {{ let b = der_parser::oid!({x}); println!(\"{{:?}}\", b.as_bytes()); }}\n");
    for x in BAD.iter().chain(&BAD_ENC) {
        bad.push((format!("encode_oid!({x})"), prog_enc(x)));
    }
    for x in BAD.iter().chain(&BAD_OID) {
        bad.push((format!("oid!({x})"), prog_oid(x)));
    }
    let good = [prog_enc("1.39.4294967296"), prog_enc("rel 1"), prog_oid("1.39.4294967296"), prog_oid("rel 1")];
    for (k, (_, s)) in bad.iter().enumerate() {
        std::fs::write(dir.join(format!("src/bin/bad{k}.rs")), s).expect("program");
    }
    for (k, s) in good.iter().enumerate() {
        std::fs::write(dir.join(format!("src/bin/good{k}.rs")), s).expect("program");
    }
    let target = root.join("build/c19-target");
    let _ = cargo(&dir, &target).args(["clean", "-q", "--offline", "-p", "der-parser", "-p", "der-oid-macro", "-p", "oidprog"]).output();
    let mut c = cargo(&dir, &target);
    c.args(["build", "-q", "--offline", "--locked", "--bin", "oidprog"]);
    let o = match c.output() {
        Ok(o) => o,
        Err(e) => {
            rep.inconclusive = Some(e.to_string());
            return rep;
        }
    };
    let fail = |rep: &mut Report, msg: String| {
        let p = a.replays.join(format!("C19-{}.txt", a.seed));
        let _ = std::fs::create_dir_all(&a.replays);
        let _ = std::fs::write(&p, format!("property C19\n{msg}\n"));
        rep.message = msg;
        rep.violation = Some(p);
    };
    if !o.status.success() {
        let log = String::from_utf8_lossy(&o.stderr).into_owned();
        let head: String = log.lines().filter(|l| !l.is_empty()).take(12).collect::<Vec<_>>().join("\n");
        // a refusal of the generated program itself: its macro calls are all valid
        if compile_error(&log) && log.contains("--> src/main.rs") && !log.contains("could not compile `der-") {
            fail(&mut rep, format!("a program with valid identifiers only does not compile:\n{head}"));
        } else {
            rep.inconclusive = Some(format!("the program could not be built: {head}"));
        }
        return rep;
    }
    let o = Command::new(target.join("debug/oidprog")).stdin(Stdio::null()).output().expect("run");
    let text = String::from_utf8_lossy(&o.stdout).into_owned();
    if !o.status.success() {
        let n = text.lines().count();
        fail(&mut rep, format!("the program ended with {} after {} lines: {}", o.status, n, String::from_utf8_lossy(&o.stderr).chars().take(500).collect::<String>()));
        return rep;
    }
    let mut enc_seen = vec![false; ids.len()];
    for l in text.lines() {
        let f: Vec<&str> = l.splitn(6, ' ').collect();
        if f[0] == "Z" {
            // the all-zero identifier has a one-component spelling
            rep.evals += 1;
            if f[2..] != ["00", "00", "true"] {
                fail(&mut rep, format!("encode_oid!(0), oid!(0), equality with the decoded 06 01 00: {:?}", &f[2..]));
                return rep;
            }
            continue;
        }
        let k: usize = f[1].parse().unwrap();
        let want = hex(&ids[k].encoding());
        let name = format!("{}{}", if ids[k].rel { "rel " } else { "" }, ids[k].dotted());
        rep.evals += 1;
        let bump = |rep: &mut Report, n: &str| *rep.counts.entry(n.into()).or_insert(0) += 1;
        match f[0] {
            "E" => {
                enc_seen[k] = true;
                bump(&mut rep, "encode_oid_results");
                if f[2] != want || f[3] != "true" {
                    fail(&mut rep, format!("encode_oid!({name}) = {} instead of {want} (equal to the decoded wire form: {})", f[2], f[3]));
                    return rep;
                }
            }
            "O" => {
                bump(&mut rep, "oid_results");
                if f[2] != want || f[3] != "true" || f[4] != "true" {
                    fail(&mut rep, format!("oid!({name}) = {} instead of {want} (equal to the decoded wire form: {} {})", f[2], f[3], f[4]));
                    return rep;
                }
            }
            "P" => {
                bump(&mut rep, "patterns_selected");
                if f[2].parse::<usize>().unwrap() != k && ids[f[2].parse::<usize>().unwrap()].encoding() != ids[k].encoding() {
                    fail(&mut rep, format!("the decoded {name} selects the pattern of another identifier"));
                    return rep;
                }
            }
            "C" => {
                bump(&mut rep, "constants");
                if f[2] != want {
                    fail(&mut rep, format!("const oid!({name}) = {} instead of {want}", f[2]));
                    return rep;
                }
            }
            _ => {
                rep.inconclusive = Some(format!("output: {l}"));
                return rep;
            }
        }
    }
    if rep.counts.get("patterns_selected").copied().unwrap_or(0) < pats.len() as u64 || enc_seen.iter().any(|x| !x) {
        fail(&mut rep, "a decoded identifier does not select its own pattern".to_string());
        return rep;
    }
    rep.distinct = ids.len() as u64;
    rep.counts.insert("components_over_128_bits".into(), ids.iter().flat_map(|i| &i.c).filter(|c| c.bit_len() > 128).count() as u64);
    for k in [3usize, 900, 1700, 2600] {
        if let Some(i) = ids.get(k) {
            rep.samples.push(format!("{}{} -> {}", if i.rel { "rel " } else { "" }, i.dotted(), hex(&i.encoding())));
        }
    }
    // ---- refusals
    let mut c = cargo(&dir, &target);
    c.args(["build", "-q", "--offline", "--locked", "--bins", "--keep-going"]);
    let o = c.output().expect("cargo");
    let exists = |n: &str, k: usize| target.join(format!("debug/{n}{k}")).exists();
    if (0..good.len()).any(|k| !exists("good", k)) {
        rep.inconclusive = Some(format!("the valid twins do not build: {}", String::from_utf8_lossy(&o.stderr).chars().take(600).collect::<String>()));
        return rep;
    }
    for (k, (name, _)) in bad.iter().enumerate() {
        rep.evals += 1;
        if exists("bad", k) {
            let o = Command::new(target.join(format!("debug/bad{k}"))).stdin(Stdio::null()).output().expect("run");
            fail(&mut rep, format!("the invalid {name} compiles, to {}", String::from_utf8_lossy(&o.stdout).trim()));
            return rep;
        }
    }
    rep.counts.insert("invalid_programs_refused".into(), bad.len() as u64);
    let _ = std::fs::remove_dir_all(&dir);
    rep
}
