//! C09-C11: values of primitive types
use super::util::*;
use crate::api::{self, P};
use crate::gen::*;
use crate::model::{self, *};
use crate::rt::*;
use crate::snap::*;
use der_parser::ber::*;
use der_parser::error::BerError;

/// two's complement value in the fewest octets
fn strip_signed(b: &[u8]) -> Vec<u8> {
    let mut b = b;
    while b.len() > 1 && ((b[0] == 0 && b[1] < 0x80) || (b[0] == 0xff && b[1] >= 0x80)) {
        b = &b[1..];
    }
    if b.is_empty() {
        vec![0]
    } else {
        b.to_vec()
    }
}
fn strip_zeroes(b: &[u8]) -> Vec<u8> {
    let k = b.iter().position(|x| *x != 0).unwrap_or(b.len());
    if k == b.len() {
        vec![0]
    } else {
        b[k..].to_vec()
    }
}
fn same_int<T: Into<i128> + Copy + std::fmt::Debug>(what: &str, b: &[u8], w: u8, s: bool, r: Result<T, BerError>, st: &mut Stats) -> Result<(), String> {
    let neg = b.first().is_some_and(|x| x & 0x80 != 0);
    let v = api::int_value(b);
    let (lo, hi) = api::int_range(w, s);
    let fits = v.is_some_and(|v| v >= lo && v <= hi);
    st.add("conversions", 1);
    match r {
        Ok(x) => {
            let x: i128 = x.into();
            if !fits || v != Some(x) {
                return Err(format!("{what}: {} denotes {v:?} but converts to {x}", hex(b)));
            }
            st.add("exact", 1);
        }
        Err(e) => {
            if fits {
                if e == BerError::IntegerTooLarge && s && neg && b.len() > w as usize / 8 && b[0] == 0xff {
                    return Ok(());
                }
                return Err(format!("{what}: {} denotes {v:?}, which fits, but is refused as {e:?}", hex(b)));
            }
            st.add("refused", 1);
            let want = if neg && !s { BerError::IntegerNegative } else { BerError::IntegerTooLarge };
            if e != want {
                return Err(format!("{what}: {} is refused as {e:?}, not {want:?}", hex(b)));
            }
        }
    }
    Ok(())
}
fn check_int_obj(o: &BerObject, b: &[u8], st: &mut Stats) -> Result<(), String> {
    same_int("as_i64", b, 64, true, o.as_i64(), st)?;
    same_int("as_i32", b, 32, true, o.as_i32(), st)?;
    same_int("as_u64", b, 64, false, o.as_u64(), st)?;
    same_int("as_u32", b, 32, false, o.as_u32(), st)?;
    same_int("content.as_i64", b, 64, true, o.content.as_i64(), st)?;
    same_int("content.as_i32", b, 32, true, o.content.as_i32(), st)?;
    same_int("content.as_u64", b, 64, false, o.content.as_u64(), st)?;
    same_int("content.as_u32", b, 32, false, o.content.as_u32(), st)?;
    let neg = b.first().is_some_and(|x| x & 0x80 != 0);
    match o.as_bigint() {
        Ok(x) => {
            let got = strip_signed(&x.to_signed_bytes_be());
            if got != strip_signed(b) {
                return Err(format!("as_bigint: {} converts to {}", hex(b), hex(&got)));
            }
        }
        Err(e) => return Err(format!("as_bigint: {} refused as {e:?}", hex(b))),
    }
    match o.as_biguint() {
        Ok(x) => {
            let got = strip_zeroes(&x.to_bytes_be());
            if neg || got != strip_zeroes(b) {
                return Err(format!("as_biguint: {} converts to {}", hex(b), hex(&got)));
            }
        }
        Err(e) => {
            if !neg || e != BerError::IntegerNegative {
                return Err(format!("as_biguint: {} refused as {e:?}", hex(b)));
            }
        }
    }
    Ok(())
}

pub struct C09;
impl Check for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "contents octets (all of length 0 to 2, +-2 around every power of two up to 2^130 with 0 to 20 redundant sign octets, random) are read as INTEGER and ENUMERATED through all parsers and accessors and compared with an independent two's complement evaluation; every case is non-trivial (distinct contents octets)"
    }
    fn fixed(&self, t: Tier, emit: &mut dyn FnMut(Case)) {
        emit(Case::new(vec![], 0));
        for a in 0..=255u8 {
            emit(Case::new(vec![a], a as u64));
        }
        for a in 0..=65535u16 {
            emit(Case::new(a.to_be_bytes().to_vec(), a as u64));
        }
        for k in 0..=130usize {
            for d in -2i32..=2 {
                for neg in [false, true] {
                    let v = pow2(k, d, neg);
                    let pad = if v[0] >= 0x80 { 0xff } else { 0 };
                    let pads: &[usize] = if t == Tier::Quick { &[0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 20] } else { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 60, 126, 127, 128, 129, 255, 256, 257] };
                    for &p in pads {
                        let mut w = vec![pad; p];
                        w.extend(&v);
                        emit(Case::new(w, (k * 31 + p) as u64));
                        // the opposite sign octet in front is another number
                        if p == 1 {
                            let mut w = vec![!pad];
                            w.extend(&v);
                            emit(Case::new(w, (k * 31 + p) as u64));
                        }
                    }
                }
            }
        }
        for n in [1usize, 4, 5, 8, 9, 16, 17, 300, 70_000] {
            for x in [0u8, 0xff, 0x80, 0x7f, 1] {
                let mut v = vec![x; n];
                emit(Case::new(v.clone(), 1));
                *v.last_mut().unwrap() = 0x55;
                emit(Case::new(v.clone(), 1));
                v[0] ^= 0x80;
                emit(Case::new(v, 1));
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let p = g.r.u64();
        let v = match g.r.below(4) {
            0 => {
                let n = g.r.below(20);
                g.bytes(n)
            }
            1 => {
                let x = g.num();
                let n = g.r.range(1, 8);
                let mut v = x.to_be_bytes()[8 - n..].to_vec();
                let pad = *g.r.pick(&[0u8, 0xff]);
                for _ in 0..g.r.below(12) {
                    v.insert(0, pad);
                }
                v
            }
            2 => g.int(true),
            _ => g.int(false),
        };
        Case::new(v, p)
    }
    fn max_input(&self) -> usize {
        400
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), String> {
        let mut r = c.rng();
        let b = &c.input[..];
        st.nontrivial();
        if b.len() < 20 {
            st.distinct("contents", c.hash());
        }
        // INTEGER, whatever the class or the length form of the element
        let enc = model::tlv(0, false, 2, b);
        let i = place(0, &enc);
        for der in [false, true] {
            for w in [32u8, 64] {
                for s in [true, false] {
                    let p = P::Int(der, w, s);
                    let o = api::check(&p, i)?;
                    st.add("direct_parses", 1);
                    if let (Out::Err(k, _), Err(E::Err(want))) = (&o, api::expect(&p, i)) {
                        if !kind_matches(want, k) {
                            return Err(format!("{p:?}: refused as {k}, expected {want:?}"));
                        }
                    }
                }
            }
            let res = match r.below(3) {
                0 => sut::typed()[2].1(i),
                1 if der => der_parser::der::parse_der_integer(i),
                _ => {
                    if der {
                        der_parser::parse_der(i)
                    } else {
                        der_parser::parse_ber(i)
                    }
                }
            };
            if let Ok((_, o)) = &res {
                if !matches!(o.content, BerObjectContent::Integer(x) if x == b) {
                    return Err(format!("INTEGER {} decoded to other contents", hex(b)));
                }
                check_int_obj(o, b, st)?;
                st.add("objects", 1);
            } else if !der {
                return Err(format!("INTEGER {} refused", hex(b)));
            }
        }
        let o = BerObject::from_int_slice(place(1, b));
        check_int_obj(&o, b, st)?;
        // the header plays no role
        let h = Header::new(class(r.byte()), r.chance(1, 2), Tag(rand_tag(&mut r)), Length::Definite(r.below(9)));
        let o = BerObject::from_header_and_content(h, BerObjectContent::Integer(place(1, b)));
        check_int_obj(&o, b, st)?;
        // ENUMERATED
        let enc = model::tlv(0, false, 10, b);
        let i = place(2, &enc);
        let want = {
            let z = strip_zeroes(b);
            if z.len() <= 4 {
                Some(z.iter().fold(0u64, |a, x| (a << 8) | *x as u64))
            } else {
                None
            }
        };
        for k in 0..4 {
            let res = match k {
                0 => der_parser::parse_ber(i),
                1 => der_parser::parse_der(i),
                2 => parse_ber_enum(i),
                _ => der_parser::der::parse_der_enum(i),
            };
            st.add("enum_parses", 1);
            match (res, want) {
                (Ok((_, o)), Some(v)) => {
                    if o.content != BerObjectContent::Enum(v) || o.as_u64() != Ok(v) || o.as_u32().ok().map(u64::from) != Some(v) {
                        return Err(format!("ENUMERATED {} is {v}, decoded to {:?} / {:?} / {:?}", hex(b), o.content, o.as_u64(), o.as_u32()));
                    }
                }
                (Ok((_, o)), None) => return Err(format!("ENUMERATED {} accepted as {:?}", hex(b), o.content)),
                (Err(der_parser::nom::Err::Error(BerError::IntegerTooLarge)), None) => (),
                (Err(e), _) => return Err(format!("ENUMERATED {}: {e:?}, expected {want:?}", hex(b))),
            }
        }
        // a hand-built one
        if b.len() >= 8 {
            let v = u64::from_be_bytes(b[..8].try_into().unwrap());
            let o = BerObject::from_obj(BerObjectContent::Enum(v));
            let u32w = u32::try_from(v).ok();
            if o.as_u64() != Ok(v) || o.as_u32().ok() != u32w || (u32w.is_none() && o.as_u32() != Err(BerError::IntegerTooLarge)) {
                return Err(format!("Enum({v}) converts to {:?} / {:?}", o.as_u64(), o.as_u32()));
            }
        }
        Ok(())
    }
}
fn pow2(k: usize, d: i32, neg: bool) -> Vec<u8> {
    // two's complement of +-(2^k + d), 20 octets, then shortened
    let mut v = vec![0u8; 20];
    v[19 - k / 8] |= 1 << (k % 8);
    let mut carry = d;
    for x in v.iter_mut().rev() {
        let t = *x as i32 + carry;
        *x = t as u8;
        carry = t >> 8;
    }
    if neg {
        let mut c = 1u16;
        for x in v.iter_mut().rev() {
            let t = (!*x) as u16 + c;
            *x = t as u8;
            c = t >> 8;
        }
    }
    strip_signed(&v)
}

pub struct C10;
impl Check for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "bit strings (all with up to 2 data octets, every length up to 12 with every unused count, random) are decoded through all parsers; every bit, indices beyond the end up to usize::MAX, the bit-slice view and the numeric value are compared with the encoded octets; non-trivial: the bit string was accepted or hand-built"
    }
    fn fixed(&self, t: Tier, emit: &mut dyn FnMut(Case)) {
        emit(Case::new(vec![], 0));
        for u in 0..=255u8 {
            emit(Case::new(vec![u], u as u64));
            for x in 0..=255u8 {
                emit(Case::new(vec![u, x], x as u64));
            }
        }
        let step = if t == Tier::Quick { 7 } else { 1 };
        for x in (0..=65535u32).step_by(step) {
            let u = (x % 8) as u8;
            emit(Case::new(vec![u, (x >> 8) as u8, x as u8], 0));
        }
        for n in 3..=17usize {
            for u in 0..=20u8 {
                for x in [0u8, 0xff, 0x80, 1, 0x5a] {
                    let mut v = vec![u];
                    v.extend(vec![x; n]);
                    emit(Case::new(v.clone(), n as u64));
                    *v.last_mut().unwrap() = 0x80;
                    emit(Case::new(v.clone(), n as u64));
                    v[1] = 0x80;
                    v[n] = 0xf0;
                    emit(Case::new(v, n as u64));
                }
            }
            for u in [63u8, 64, 65, 72, 127, 128, 136, 200, 255] {
                let mut v = vec![u];
                v.extend((0..n).map(|k| (k * 37 + 129) as u8));
                emit(Case::new(v, n as u64));
            }
        }
        // long ones: around every power of two of octets (and of bits)
        for e in 4..if t == Tier::Quick { 18 } else { 22 } {
            for n in [(1usize << e) - 1, 1 << e, (1 << e) + 1] {
                for x in [0xffu8, 0x5a] {
                    let mut v = vec![0];
                    v.extend(vec![x; n]);
                    emit(Case::new(v, x as u64));
                }
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let p = g.r.u64();
        let d = g.r.chance(1, 2);
        Case::new(g.bits(d), p)
    }
    fn max_input(&self) -> usize {
        2000
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), String> {
        let mut r = c.rng();
        let enc = model::tlv(0, false, 3, &c.input);
        let i = place(0, &enc);
        let mut objs = vec![];
        for der in [false, true] {
            for p in [P::Gen(der), P::Tag(der, 3), P::Typed(der, 3), P::TwoStep(der, 50)] {
                api::check(&p, i)?;
            }
            let res = if der { der_parser::der::parse_der_bitstring(i) } else { parse_ber_bitstring(i) };
            if let Ok((_, o)) = res {
                objs.push(o);
            }
        }
        if !c.input.is_empty() {
            objs.push(BerObject::from_obj(BerObjectContent::BitString(c.input[0], BitStringObject { data: place(1, &c.input[1..]) })));
        }
        for o in objs {
            st.nontrivial();
            st.add("objects", 1);
            let (u, d) = (c.input[0] as usize, &c.input[1..]);
            let BerObjectContent::BitString(gu, gb) = &o.content else { return Err(format!("decoded to {:?}", o.content)) };
            if *gu as usize != u || gb.data != d || gb.as_ref() != d || o.as_slice().ok() != Some(d) || o.as_bitstring().ok().map(|b| b.data) != Some(d) || o.as_bitstring_ref().ok().map(|b| b.data) != Some(d) {
                return Err(format!("bit string {} exposes other octets or another unused count", hex(&c.input)));
            }
            let bit = |n: usize| n / 8 < d.len() && (d[n / 8] >> (7 - n % 8)) & 1 == 1;
            let nb = d.len() * 8;
            for n in 0..nb.min(600) + 20 {
                if gb.is_set(n) != bit(n) {
                    return Err(format!("is_set({n}) is {} for {}", gb.is_set(n), hex(d)));
                }
            }
            st.add("bits_tested", nb.min(600) as u64 + 20);
            for e in 3..usize::BITS {
                for n in (1usize << e) - 2..=(1usize << e) + 1 {
                    if gb.is_set(n) != bit(n) {
                        return Err(format!("is_set({n}) is {} for {} octets of data", gb.is_set(n), d.len()));
                    }
                    if let Some(s) = gb.as_bitslice() {
                        if s.get(n).map(|b| *b) != (n < nb).then(|| bit(n)) {
                            return Err(format!("bit {n} of the bit slice is {:?} for {} octets of data", s.get(n).map(|b| *b), d.len()));
                        }
                    }
                }
            }
            for n in [nb, nb + 1, nb + 7, nb + 8, usize::MAX, usize::MAX - 1, usize::MAX / 8, usize::MAX / 8 + 1, 1 << 32, (1 << 32) + 1, 1 << 35, (1 << 35) + 3, 1 << 11, (1 << 16) + 1, r.u64() as usize, (r.u64() >> 30) as usize, nb.wrapping_sub(1), nb / 2, r.below(nb + 1)] {
                if gb.is_set(n) != bit(n) {
                    return Err(format!("is_set({n}) is {} for {} octets of data", gb.is_set(n), d.len()));
                }
            }
            match (gb.as_bitslice(), o.as_bitslice()) {
                (Some(a), Ok(b)) => {
                    for s in [a, b] {
                        if s.len() != nb {
                            return Err(format!("the bit slice has {} bits, the data {nb}", s.len()));
                        }
                        for n in 0..nb.min(600) {
                            if s[n] != bit(n) {
                                return Err(format!("bit {n} of the bit slice of {} is {}", hex(d), s[n]));
                            }
                        }
                    }
                }
                _ => return Err("no bit slice".into()),
            }
            // as a number
            let bits = nb as i64 - u as i64;
            let value: Option<u128> = if bits < 0 {
                None
            } else {
                let mut v: u128 = 0;
                let mut big = false;
                for n in 0..bits as usize {
                    if v >> 126 != 0 {
                        big = true;
                        break;
                    }
                    v = (v << 1) | bit(n) as u128;
                }
                if big {
                    Some(u128::MAX)
                } else {
                    Some(v)
                }
            };
            for (w, got) in [(64, o.as_u64()), (32, o.as_u32().map(u64::from)), (64, o.content.as_u64()), (32, o.content.as_u32().map(u64::from))] {
                let max = if w == 64 { u64::MAX as u128 } else { u32::MAX as u128 };
                match (&got, value) {
                    (Ok(x), Some(v)) if v <= max => {
                        if *x as u128 != v {
                            return Err(format!("bit string {} read as a {w}-bit number gives {x}, not {v}", hex(&c.input)));
                        }
                        st.add("numbers", 1);
                    }
                    (Ok(x), _) => return Err(format!("bit string {} read as a {w}-bit number gives {x}", hex(&c.input))),
                    (Err(e), Some(v)) if v <= max && bits <= 64 => return Err(format!("bit string {} is {v}, but is refused as a {w}-bit number: {e:?}", hex(&c.input))),
                    (Err(_), _) => st.add("numbers_refused", 1),
                }
            }
            if o.as_i64().is_ok() || o.as_i32().is_ok() || o.as_bigint().is_ok() || o.as_biguint().is_ok() {
                return Err("a bit string is converted to a signed integer".into());
            }
        }
        Ok(())
    }
}

const STRS: &[u32] = &[7, 12, 18, 19, 20, 21, 22, 25, 26, 27, 28, 30];
pub struct C11;
impl Check for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "every octet in every restricted string type (alone, first, last, in the middle), every two-octet UTF-8 and BMP unit, times with every value of every field, every zone form and every single-character change, random strings; acceptance and all fields compared with character tables and a time grammar written from the standards; non-trivial: every case (distinct contents and type)"
    }
    fn fixed(&self, t: Tier, emit: &mut dyn FnMut(Case)) {
        for &tag in STRS {
            emit(Case::new(vec![], tag as u64));
            for x in 0..=255u8 {
                emit(Case::new(vec![x], tag as u64));
                for pat in ["Ab1 ", "0 12"] {
                    let s = pat.as_bytes();
                    for k in 0..=s.len() {
                        let mut v = s.to_vec();
                        v.insert(k, x);
                        emit(Case::new(v, tag as u64));
                    }
                }
            }
        }
        let step = if t == Tier::Quick { 13 } else { 1 };
        for x in (0..=65535u32).step_by(step) {
            let b = (x as u16).to_be_bytes();
            emit(Case::new(b.to_vec(), 12));
            emit(Case::new(b.to_vec(), 30));
            if x >= 0xd700 && x < 0xe100 {
                for y in [0x0041u16, 0xd800, 0xdbff, 0xdc00, 0xdfff] {
                    let mut v = b.to_vec();
                    v.extend(y.to_be_bytes());
                    emit(Case::new(v.clone(), 30));
                    v.push(0);
                    emit(Case::new(v, 30));
                }
            }
        }
        for x in 0xd7fe..=0xe001u32 {
            emit(Case::new((x as u16).to_be_bytes().to_vec(), 30));
        }
        for a in [0xc0u8, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf8, 0xff] {
            for b in [0x00u8, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0] {
                for c in [0x7fu8, 0x80, 0xbf, 0xc0] {
                    emit(Case::new(vec![a, b, c], 12));
                    emit(Case::new(vec![a, b, c, 0x80], 12));
                    emit(Case::new(vec![b'x', a, b, c, 0xbf, b'y'], 12));
                }
            }
        }
        // times
        for utc in [true, false] {
            let tag = if utc { 23 } else { 24 };
            let base = if utc { "991231235959" } else { "19991231235959" };
            let yl = base.len() - 10;
            let zones = ["Z", "", "+0000", "-0000", "+0530", "-1245", "+2359", "+9999", "-9999", "z", "+05", "+053", "+05300", "+05:30", "Z0", "+-530", " Z", "ZZ"];
            let fracs = ["", ".", ",", ".0", ".1", ".5", ".12", ".123", ".999", ".000", ",001", ".1234", ".12345", ".123456", ".a", ".1a", ".+1"];
            for f in 0..5 {
                for v in 0..100 {
                    let mut s = base.to_string();
                    s.replace_range(yl + 2 * f..yl + 2 * f + 2, &format!("{v:02}"));
                    for z in ["Z", "+0130"] {
                        emit(Case::new(format!("{s}{z}").into_bytes(), tag));
                    }
                }
            }
            for y in 0..if utc { 100 } else { 300 } {
                let s = if utc { format!("{y:02}0102030405Z") } else { format!("{:04}0102030405Z", y * 37 % 10000) };
                emit(Case::new(s.into_bytes(), tag));
            }
            for z in zones {
                for fr in fracs {
                    emit(Case::new(format!("{base}{fr}{z}").into_bytes(), tag));
                    emit(Case::new(format!("{}{fr}{z}", &base[..base.len() - 2]).into_bytes(), tag));
                    emit(Case::new(format!("{}{fr}{z}", &base[..base.len() - 4]).into_bytes(), tag));
                }
            }
            for h in 0..100 {
                for m in [0, 1, 30, 59, 60, 99, h] {
                    emit(Case::new(format!("{base}+{h:02}{m:02}").into_bytes(), tag));
                    emit(Case::new(format!("{base}-{h:02}{m:02}").into_bytes(), tag));
                }
            }
            for ms in 0..1000 {
                if !utc {
                    emit(Case::new(format!("{base}.{ms:03}Z").into_bytes(), tag));
                    emit(Case::new(format!("{base},{ms:03}").into_bytes(), tag));
                }
            }
            let full = format!("{base}{}", if utc { "+0130" } else { ".123+0130" });
            for k in 0..full.len() {
                for x in 0..=255u8 {
                    let mut v = full.clone().into_bytes();
                    v[k] = x;
                    emit(Case::new(v, tag));
                }
                emit(Case::new(full.as_bytes()[..k].to_vec(), tag));
                let mut v = full.clone().into_bytes();
                v.remove(k);
                emit(Case::new(v, tag));
                let mut v = full.clone().into_bytes();
                v.insert(k, b'0');
                emit(Case::new(v, tag));
            }
        }
        for &tag in STRS {
            for n in [127usize, 128, 255, 256, 1000, 1024, 4096, 65535, 65536, 140_000, 1_100_000] {
                let ch = if tag == 30 || tag == 28 { 0 } else { b'1' };
                let mut v = vec![ch; n];
                emit(Case::new(v.clone(), tag as u64));
                if tag == 30 || tag == 28 {
                    // a lone surrogate, or a number that is no character, at the end
                    for (a, b) in [(2, 0xd8), (2, 0xdc), (4, 0x11), (3, 0x11)] {
                        v[n - a] = b;
                        emit(Case::new(v.clone(), tag as u64));
                        v[n - a] = 0;
                    }
                }
                v[n - 1] = 0xff;
                emit(Case::new(v.clone(), tag as u64));
                v[n - 1] = ch;
                v[n / 2] = 0x00;
                emit(Case::new(v, tag as u64));
            }
        }
    }
    fn gen(&self, g: &mut Gen) -> Case {
        let tag = if g.r.chance(1, 3) { g.r.range(23, 24) as u32 } else { *g.r.pick(STRS) };
        let mut v = match tag {
            23 => g.time(true, false),
            24 => g.time(false, false),
            _ => g.string(tag, 400),
        };
        if g.r.chance(1, 2) {
            for _ in 0..g.r.range(1, 2) {
                let x = g.byte();
                let k = g.r.below(v.len() + 1);
                match g.r.below(4) {
                    0 => v.insert(k, x),
                    1 if k < v.len() => {
                        v.remove(k);
                    }
                    _ if k < v.len() => v[k] = x,
                    _ => v.push(x),
                }
            }
        }
        Case::new(v, (g.r.u64() << 16) | tag as u64)
    }
    fn mutable(&self) -> bool {
        true
    }
    fn run(&self, c: &Case, st: &mut Stats) -> Result<(), String> {
        let mut r = c.rng();
        let mut tag = (c.param & 0xffff) as u32;
        if !STRS.contains(&tag) && tag != 23 && tag != 24 {
            tag = *r.pick(STRS);
        }
        st.nontrivial();
        st.distinct("type_and_contents", hash64(&[&c.input, &tag.to_le_bytes()]));
        let enc = model::tlv(0, false, tag, &c.input);
        let i = place(0, &enc);
        let hl = enc.len() - c.input.len();
        let k = sut::typed().iter().position(|x| x.0 == tag).unwrap_or(0);
        for der in [false, true] {
            let ps = [P::Gen(der), P::Typed(der, k), P::Tag(der, tag), P::TwoStep(der, 50), P::Content(der, 1, tag, 9), P::Content(der, 2, tag, 9)];
            for p in ps.iter().take(if i.len() > 3000 { 2 } else { 6 }) {
                let o = api::check(p, i)?;
                if o.ok() {
                    st.add("accepted", 1);
                } else {
                    st.add("refused", 1);
                }
            }
            let res = if r.chance(1, 2) { if der { der_parser::parse_der(i) } else { der_parser::parse_ber(i) } } else if der { sut::typed()[k].2(i) } else { sut::typed()[k].1(i) };
            let Ok((_, o)) = res else { continue };
            let b = Base(i);
            let want = sl(hl, c.input.len());
            if tag == 23 || tag == 24 {
                if o.as_str().is_ok() || o.as_slice().is_ok() {
                    return Err("a time has a string view".into());
                }
            } else {
                if o.as_slice().ok().map(|s| b.s(s)) != Some(want) || o.content.as_slice().ok().map(|s| b.s(s)) != Some(want) {
                    return Err(format!("the byte view of {} (type {tag}) is {:?}", hex(&c.input), o.as_slice()));
                }
                let sv = o.as_str().ok().map(|s| b.s(s.as_bytes()));
                let sv2 = o.content.as_str().ok().map(|s| b.s(s.as_bytes()));
                let exp = if tag == 28 || tag == 30 { None } else { Some(want) };
                if sv != exp || sv2 != exp {
                    return Err(format!("the string view of {} (type {tag}) is {:?}", hex(&c.input), o.as_str()));
                }
            }
        }
        if let Some(d) = sut::deprecated_visiblestring(place(1, &model::tlv(0, false, 26, &c.input))).ok() {
            if !model::charset_ok(26, &c.input) {
                return Err(format!("visiblestring accepts {:?}", d.1.content));
            }
        }
        // constructed: refused for strings
        if tag != 23 && tag != 24 {
            let v = model::tlv(0, true, tag, &c.input);
            let i = place(2, &v);
            for p in [P::Gen(false), P::Gen(true), P::Typed(false, k), P::Typed(true, k), P::TwoStep(false, 50), P::TwoStep(true, 50)] {
                if api::run(&p, i).ok() {
                    return Err(format!("{p:?}: a constructed string of type {tag} is accepted: {}", hex(i)));
                }
            }
        }
        Ok(())
    }
}
