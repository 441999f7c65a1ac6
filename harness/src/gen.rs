//! Workload generation: grammar based encodings, structural and byte mutation, guided by the constants
//! the monitored code compares against and the literals of its source (guidance only, never a verdict).
use crate::model;
use crate::rt::{dict_values, recent_pairs, Rng};

pub struct Gen {
    pub r: Rng,
    dict: Vec<u64>,
    lits: Vec<u64>,
    strs: Vec<Vec<u8>>,
}
pub const UNIV: &[u32] = &[0, 1, 2, 3, 4, 5, 6, 7, 10, 12, 13, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 30];
pub const PRIMS: &[u32] = &[1, 2, 3, 4, 5, 6, 7, 10, 12, 13, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 30];
const BOUNDS: &[u64] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 30, 31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767,
    32768, 65534, 65535, 65536, 65537,
];
#[derive(Clone, Copy)]
pub struct Opt {
    /// canonical DER contents and definite lengths
    pub der: bool,
    /// chance in percent that a primitive is malformed
    pub bad: usize,
    pub depth: usize,
    /// chance in percent of indefinite lengths for constructed elements (BER only)
    pub indef: usize,
    /// chance in percent of a longer than needed length
    pub long: usize,
    /// chance in percent of a non universal element
    pub nonuniv: usize,
    /// largest primitive
    pub maxlen: usize,
}
pub const DER: Opt = Opt { der: true, bad: 0, depth: 4, indef: 0, long: 0, nonuniv: 12, maxlen: 300 };
pub const BER: Opt = Opt { der: false, bad: 0, depth: 4, indef: 35, long: 20, nonuniv: 12, maxlen: 300 };

fn scan_literals() -> (Vec<u64>, Vec<Vec<u8>>) {
    let mut nums = vec![];
    let mut strs = vec![];
    let dir = std::env::var("DERMON_SRC").unwrap_or_else(|_| "/repo/src".into());
    let mut stack = vec![std::path::PathBuf::from(dir)];
    while let Some(d) = stack.pop() {
        let Ok(rd) = std::fs::read_dir(&d) else { continue };
        let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
        es.sort();
        for p in es {
            if p.is_dir() {
                stack.push(p);
                continue;
            }
            let Ok(t) = std::fs::read_to_string(&p) else { continue };
            for l in t.lines() {
                let l = l.trim_start();
                if l.starts_with("//") {
                    continue;
                }
                let b = l.as_bytes();
                let mut k = 0;
                let mut prev = b' ';
                while k < b.len() {
                    let c = b[k];
                    if c.is_ascii_digit() && !(prev.is_ascii_alphanumeric() || prev == b'_') {
                        let s = k;
                        while k < b.len() && (b[k].is_ascii_alphanumeric() || b[k] == b'_') {
                            k += 1;
                        }
                        let w: String = l[s..k].replace('_', "");
                        let w = w.trim_end_matches("usize").trim_end_matches("u64").trim_end_matches("u32").trim_end_matches("u16").trim_end_matches("u8").to_string();
                        let v = if let Some(h) = w.strip_prefix("0x") {
                            u64::from_str_radix(h, 16).ok()
                        } else if let Some(h) = w.strip_prefix("0b") {
                            u64::from_str_radix(h, 2).ok()
                        } else {
                            w.parse().ok()
                        };
                        if let Some(v) = v {
                            nums.push(v);
                        }
                        prev = b'0';
                        continue;
                    }
                    if c == b'\'' && k + 2 < b.len() && b[k + 2] == b'\'' {
                        nums.push(b[k + 1] as u64);
                        k += 3;
                        prev = b'\'';
                        continue;
                    }
                    if c == b'"' {
                        let s = k + 1;
                        k += 1;
                        while k < b.len() && b[k] != b'"' {
                            if b[k] == b'\\' {
                                k += 1;
                            }
                            k += 1;
                        }
                        if k <= b.len() && k > s && k - s <= 16 {
                            strs.push(b[s..k.min(b.len())].to_vec());
                        }
                    }
                    prev = c;
                    k += 1;
                }
            }
        }
    }
    nums.sort();
    nums.dedup();
    strs.sort();
    strs.dedup();
    (nums, strs)
}
impl Gen {
    pub fn new(seed: u64) -> Gen {
        let (lits, strs) = if cfg!(miri) { (vec![], vec![]) } else { scan_literals() };
        Gen { r: Rng::new(seed), dict: vec![], lits, strs }
    }
    /// without guidance (used when a case is expanded from its parameter: must be reproducible)
    pub fn plain(seed: u64) -> Gen {
        Gen { r: Rng::new(seed), dict: vec![], lits: vec![], strs: vec![] }
    }
    pub fn refresh_dict(&mut self) {
        self.dict = dict_values();
    }
    pub fn num(&mut self) -> u64 {
        let n = self.r.below(8);
        let v = match n {
            0 | 1 if !self.dict.is_empty() => *self.r.pick(&self.dict.clone()),
            2 if !self.lits.is_empty() => *self.r.pick(&self.lits.clone()),
            3..=5 => *self.r.pick(BOUNDS),
            6 => self.r.below(300) as u64,
            _ => {
                let s = self.r.below(64);
                self.r.u64() >> s
            }
        };
        match self.r.below(6) {
            0 => v.wrapping_add(1),
            1 => v.wrapping_sub(1),
            _ => v,
        }
    }
    pub fn byte(&mut self) -> u8 {
        match self.r.below(4) {
            0 => self.num() as u8,
            1 => *self.r.pick(&[0u8, 1, 0x7f, 0x80, 0x81, 0xff, 0xfe, 0x30, 0x20, 0x1f]),
            _ => self.r.byte(),
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let m = self.r.below(8);
        let mut v: Vec<u8> = match m {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => {
                let b = self.byte();
                vec![b; n]
            }
            3 => (0..n).map(|i| i as u8).collect(),
            _ if n > 64 => {
                let s = self.r.u64();
                let mut q = Rng::new(s);
                let mut v = Vec::with_capacity(n + 8);
                while v.len() < n {
                    v.extend(q.u64().to_le_bytes());
                }
                v.truncate(n);
                v
            }
            _ => (0..n).map(|_| self.byte()).collect(),
        };
        if n > 0 && self.r.chance(1, 4) {
            let k = self.r.below(n);
            v[k] = self.byte();
        }
        if n >= 2 && self.r.chance(1, 6) {
            // plant a multi-octet constant
            let x = self.num();
            let w = *self.r.pick(&[2usize, 4, 8]);
            if n >= w {
                let k = self.r.below(n - w + 1);
                let be = x.to_be_bytes();
                v[k..k + w].copy_from_slice(&be[8 - w..]);
            }
        }
        v
    }
    pub fn size(&mut self, max: usize) -> usize {
        let n = match self.r.below(12) {
            0 => 0,
            1..=6 => self.r.range(1, 12),
            7 | 8 => self.r.range(1, 70),
            9 => self.r.below(300),
            10 => *self.r.pick(BOUNDS) as usize,
            _ => self.num() as usize,
        };
        if n > max {
            self.r.below(max.min(40) + 1)
        } else {
            n
        }
    }
    pub fn tag(&mut self) -> u32 {
        match self.r.below(8) {
            0..=2 => self.r.below(31) as u32,
            3 | 4 => self.r.below(5) as u32,
            5 => *self.r.pick(&[30, 31, 32, 63, 64, 127, 128, 129, 255, 256, 16383, 16384, 65535, 65536, 2097151, 2097152, 268435455, 268435456, u32::MAX]),
            6 => (self.num() & 0xffff_ffff) as u32,
            _ => {
                let s = self.r.below(32);
                (self.r.u64() as u32) >> s
            }
        }
    }
    /// length octets for n, sometimes longer than needed
    pub fn len_octets(&mut self, n: usize, long: usize) -> Vec<u8> {
        if !self.r.chance(long, 100) {
            return model::enc_len(n);
        }
        let b = (n as u64).to_be_bytes();
        let k = 8 - b.iter().position(|&x| x != 0).unwrap_or(7);
        let extra = match self.r.below(8) {
            0..=5 => self.r.below(4),
            6 => self.r.below(9),
            _ => self.r.below(100),
        };
        let tot = (k + extra).clamp(1, 126);
        let mut v = vec![0x80 | tot as u8];
        v.extend(std::iter::repeat(0).take(tot - k));
        v.extend(&b[8 - k..]);
        v
    }
    pub fn tlv(&mut self, class: u8, cons: bool, tag: u32, c: &[u8], long: usize) -> Vec<u8> {
        let mut v = model::enc_tag(class, cons, tag);
        v.extend(self.len_octets(c.len(), long));
        v.extend(c);
        v
    }
    /// contents octets of an INTEGER around interesting magnitudes
    pub fn int(&mut self, der: bool) -> Vec<u8> {
        let mut v: Vec<u8> = match self.r.below(8) {
            0 => {
                let n = self.size(40).max(1);
                self.bytes(n)
            }
            1 | 2 => {
                let x = self.num() as i128;
                let x = if self.r.chance(1, 3) { -x } else { x };
                min_int(x)
            }
            _ => {
                let k = *self.r.pick(&[0u32, 1, 6, 7, 8, 15, 16, 23, 24, 31, 32, 33, 39, 40, 47, 48, 55, 56, 62, 63, 64, 65, 71, 72, 95, 96, 126]);
                let d = self.r.range(0, 4) as i128 - 2;
                let x = (1i128 << k) + d;
                let x = if self.r.chance(1, 2) { -x } else { x };
                min_int(x)
            }
        };
        if der {
            while v.len() > 1 && ((v[0] == 0 && v[1] < 0x80) || (v[0] == 0xff && v[1] >= 0x80)) {
                v.remove(0);
            }
            if v.is_empty() {
                v.push(0);
            }
        } else {
            if self.r.chance(1, 4) {
                let pad = if v.first().is_some_and(|x| *x >= 0x80) { 0xff } else { 0 };
                let n = match self.r.below(4) {
                    0..=2 => self.r.range(1, 9),
                    _ => self.r.range(1, 70),
                };
                let mut w = vec![pad; n];
                w.extend(v);
                v = w;
            }
            if self.r.chance(1, 60) {
                v.clear();
            }
        }
        v
    }
    pub fn bits(&mut self, der: bool) -> Vec<u8> {
        let n = match self.r.below(5) {
            0 => self.r.below(3),
            1 | 2 => self.r.range(1, 10),
            3 => self.r.below(20),
            _ => self.size(300),
        };
        let mut v = self.bytes(n);
        if self.r.chance(1, 3) {
            let z = self.r.below(n + 1);
            for x in &mut v[..z] {
                *x = 0;
            }
        }
        let u = if n == 0 && der {
            0
        } else if der || self.r.chance(9, 10) {
            self.r.below(8) as u8
        } else {
            self.byte()
        };
        if der {
            if let Some(l) = v.last_mut() {
                *l &= !((1u16 << u) - 1) as u8;
            }
        }
        v.insert(0, u);
        v
    }
    pub fn oid(&mut self) -> Vec<u8> {
        let n = self.r.range(1, 6);
        let mut v = vec![];
        for _ in 0..n {
            let mut x = match self.r.below(3) {
                0 => self.r.below(128) as u64,
                _ => self.num(),
            };
            let mut t = vec![];
            loop {
                t.push((x & 0x7f) as u8 | if t.is_empty() { 0 } else { 0x80 });
                x >>= 7;
                if x == 0 {
                    break;
                }
            }
            t.reverse();
            v.extend(t);
        }
        if self.r.chance(1, 12) {
            let n = self.size(20);
            v = self.bytes(n);
        }
        v
    }
    pub fn time(&mut self, utc: bool, der: bool) -> Vec<u8> {
        let mut f = |hi: usize| match self.r.below(5) {
            0 => 0,
            1 => hi,
            _ => self.r.below(hi + 1),
        };
        let mut s = String::new();
        if utc {
            s += &format!("{:02}", f(99));
        } else {
            s += &format!("{:04}", f(9999));
        }
        s += &format!("{:02}{:02}{:02}{:02}", f(12), f(31), f(23), f(59));
        let sec = f(59);
        let with_sec = self.r.chance(9, 10);
        if with_sec {
            s += &format!("{sec:02}");
        }
        if !utc && with_sec && self.r.chance(1, 3) {
            s.push(if self.r.chance(3, 4) { '.' } else { ',' });
            for _ in 0..self.r.range(1, 3) {
                s.push((b'0' + self.r.below(10) as u8) as char);
            }
        }
        if der || !with_sec || self.r.chance(1, 2) {
            s.push('Z');
        } else if utc || self.r.chance(2, 3) {
            let (h, m) = match self.r.below(3) {
                0 => (self.r.below(100), self.r.below(100)),
                _ => (self.r.below(15), *self.r.pick(&[0usize, 15, 30, 45, 59])),
            };
            s.push(if self.r.chance(1, 2) { '+' } else { '-' });
            s += &format!("{h:02}{m:02}");
        }
        s.into_bytes()
    }
    pub fn string(&mut self, tag: u32, max: usize) -> Vec<u8> {
        let n = self.size(max);
        match tag {
            12 => {
                let mut s = String::new();
                while s.len() < n {
                    let c = match self.r.below(6) {
                        0 => self.r.below(0x80) as u32,
                        1 => self.r.below(0x800) as u32,
                        2 => self.r.below(0x10000) as u32,
                        3 => self.r.below(0x110000) as u32,
                        _ => self.r.range(0x20, 0x7e) as u32,
                    };
                    s.push(char::from_u32(c).unwrap_or('x'));
                }
                s.into_bytes()
            }
            30 => {
                let mut v = vec![];
                while v.len() + 1 < n.max(2) {
                    let c = match self.r.below(6) {
                        0 => self.r.below(0x10000) as u32,
                        1 => 0x10000 + self.r.below(0x100000) as u32,
                        _ => self.r.range(0x20, 0x17f) as u32,
                    };
                    let mut b = [0u16; 2];
                    for u in char::from_u32(c).unwrap_or('x').encode_utf16(&mut b) {
                        v.extend(u.to_be_bytes());
                    }
                }
                if n == 0 {
                    v.clear();
                }
                v
            }
            28 => {
                let mut v = self.bytes(n & !3);
                if self.r.chance(1, 2) {
                    for c in v.chunks_exact_mut(4) {
                        c[0] = 0;
                        c[1] &= 0x0f;
                    }
                }
                v
            }
            18 => (0..n).map(|_| *self.r.pick(b"0123456789 ")).collect(),
            19 => (0..n).map(|_| *self.r.pick(b"ABCXYZabcxyz0189 '()+,-./:=?")).collect(),
            20 | 21 | 26 => (0..n).map(|_| self.r.range(0x20, 0x7f) as u8).collect(),
            _ => (0..n).map(|_| self.r.below(0x80) as u8).collect(),
        }
    }
    /// valid contents for a universal primitive type
    pub fn content(&mut self, tag: u32, o: Opt) -> Vec<u8> {
        match tag {
            0 | 5 => vec![],
            1 => vec![if o.der { *self.r.pick(&[0, 0xff]) } else { self.byte() }],
            2 => self.int(o.der),
            3 => self.bits(o.der),
            6 | 13 => self.oid(),
            10 => {
                let n = self.r.range(0, 4);
                let mut v = self.bytes(n);
                if !o.der && self.r.chance(1, 4) {
                    for _ in 0..self.r.below(5) {
                        v.insert(0, 0);
                    }
                }
                v
            }
            23 => self.time(true, o.der),
            24 => self.time(false, o.der),
            7 | 12 | 18..=22 | 25..=28 | 30 => self.string(tag, o.maxlen),
            _ => {
                let n = self.size(o.maxlen);
                self.bytes(n)
            }
        }
    }
    fn spoil(&mut self, v: &mut Vec<u8>) {
        match self.r.below(6) {
            0 => v.push(self.r.byte()),
            1 => {
                v.pop();
            }
            2 => v.clear(),
            3 if !self.strs.is_empty() => {
                let s = self.r.pick(&self.strs.clone()).clone();
                let k = self.r.below(v.len() + 1);
                v.splice(k..k, s);
            }
            _ => {
                if !v.is_empty() {
                    let k = self.r.below(v.len());
                    v[k] = self.byte();
                }
            }
        }
    }
    pub fn prim(&mut self, o: Opt) -> Vec<u8> {
        if self.r.chance(o.nonuniv, 100) {
            let class = self.r.range(1, 3) as u8;
            let cons = self.r.chance(1, 3);
            let tag = self.tag();
            let c = if self.r.chance(1, 2) {
                let n = self.size(o.maxlen);
                self.bytes(n)
            } else {
                self.elem(Opt { depth: 1, ..o })
            };
            return self.tlv(class, cons, tag, &c, o.long);
        }
        if self.r.chance(1, 25) {
            // unsupported universal types
            let tag = *self.r.pick(&[8u32, 9, 11, 14, 15, 29, 31, 32, 37, 127, 128, 1000, 1 << 20]);
            let n = self.size(o.maxlen);
            let c = self.bytes(n);
            let cons = self.r.chance(1, 4);
            return self.tlv(0, cons, tag, &c, o.long);
        }
        let tag = *self.r.pick(PRIMS);
        let mut c = self.content(tag, o);
        let mut cons = false;
        if self.r.chance(o.bad, 100) {
            if self.r.chance(1, 6) {
                cons = true;
            } else {
                self.spoil(&mut c);
            }
        }
        self.tlv(0, cons, tag, &c, o.long)
    }
    /// one element (several levels), valid unless o.bad
    pub fn elem(&mut self, o: Opt) -> Vec<u8> {
        if o.depth <= 1 || self.r.chance(2, 5) {
            return self.prim(o);
        }
        let n = match self.r.below(20) {
            0 => 0,
            1..=14 => self.r.range(1, 4),
            15..=18 => self.r.range(1, 12),
            _ => self.r.range(10, 60),
        };
        let d = if n > 12 { 1 } else { o.depth - 1 };
        let o2 = Opt { depth: d, maxlen: if n > 4 { o.maxlen.min(40) } else { o.maxlen }, ..o };
        let mut c = vec![];
        if self.r.chance(1, 6) {
            // a list of one type, some items equal
            let t = *self.r.pick(PRIMS);
            let mut last = vec![];
            for _ in 0..n {
                if last.is_empty() || !self.r.chance(1, 4) {
                    let b = self.content(t, o2);
                    last = self.tlv(0, false, t, &b, o2.long);
                }
                c.extend(&last);
            }
        } else {
            for _ in 0..n {
                c.extend(self.elem(o2));
            }
        }
        let tag = if self.r.chance(2, 3) { 16 } else { 17 };
        self.wrap(0, tag, &c, o)
    }
    /// constructed element around complete contents
    pub fn wrap(&mut self, class: u8, tag: u32, c: &[u8], o: Opt) -> Vec<u8> {
        if !o.der && self.r.chance(o.indef, 100) {
            let mut v = model::enc_tag(class, true, tag);
            v.push(0x80);
            v.extend(c);
            v.extend([0, 0]);
            v
        } else {
            self.tlv(class, true, tag, c, o.long)
        }
    }
    /// k nested constructed elements around c
    pub fn nest(&mut self, k: usize, c: Vec<u8>, o: Opt) -> Vec<u8> {
        let mut c = c;
        for _ in 0..k {
            let sib = if self.r.chance(1, 8) { self.prim(Opt { maxlen: 6, ..o }) } else { vec![] };
            let mut d = vec![];
            if self.r.chance(1, 2) {
                d.extend(&sib);
                d.extend(&c);
            } else {
                d.extend(&c);
                d.extend(&sib);
            }
            let tag = if self.r.chance(3, 4) { 16 } else { 17 };
            c = self.wrap(0, tag, &d, o);
        }
        c
    }
    pub fn any_opt(&mut self) -> Opt {
        let mut o = if self.r.chance(1, 2) { DER } else { BER };
        if self.r.chance(1, 3) {
            o.bad = 15;
        }
        o.depth = self.r.range(1, 5);
        if self.r.chance(1, 10) {
            o.maxlen = 70_000;
        }
        o
    }
    /// a workload item of any kind
    pub fn input(&mut self) -> Vec<u8> {
        let o = self.any_opt();
        let mut v = match self.r.below(20) {
            0 => {
                let n = self.size(200);
                self.bytes(n)
            }
            1 => {
                let c = self.prim(o);
                let k = match self.r.below(3) {
                    0 => self.r.range(45, 54),
                    1 => self.r.range(1, 12),
                    _ => self.r.range(1, 80),
                };
                self.nest(k, c, o)
            }
            2 => {
                // big flat
                let mut c = vec![];
                for _ in 0..self.r.range(20, 400) {
                    c.extend(self.prim(Opt { maxlen: 6, ..o }));
                }
                self.wrap(0, 16, &c, o)
            }
            _ => self.elem(o),
        };
        if self.r.chance(1, 6) {
            let n = self.r.range(1, 8);
            let t = if self.r.chance(1, 2) { self.elem(Opt { depth: 1, maxlen: 8, ..o }) } else { self.bytes(n) };
            v.extend(t);
        }
        if self.r.chance(1, 5) {
            let other = self.elem(Opt { depth: 2, maxlen: 20, ..o });
            mutate(self, &mut v, &other, 1 << 20);
        }
        v
    }
}
pub fn min_int(x: i128) -> Vec<u8> {
    let b = x.to_be_bytes();
    let mut k = 0;
    while k < 15 && ((b[k] == 0 && b[k + 1] < 0x80) || (b[k] == 0xff && b[k + 1] >= 0x80)) {
        k += 1;
    }
    b[k..].to_vec()
}

// ------------------------------------------------------------ structural mutation
#[derive(Clone)]
struct T {
    tag: Vec<u8>,
    /// None: indefinite; Some(extra octets)
    long: Option<usize>,
    body: B,
}
#[derive(Clone)]
enum B {
    Leaf(Vec<u8>),
    Kids(Vec<T>),
}
fn parse(i: &[u8], pos: usize, end: usize, depth: usize) -> Option<(T, usize)> {
    let (h, p) = model::header(i, pos, end, false).ok()?;
    let (c, e) = model::content(i, p, end, &h, 50).ok()?;
    let tag = i[pos..pos + h.raw?.1].to_vec();
    let long = h.len.map(|l| (p - pos - tag.len()) - model::enc_len(l).len());
    let body = if h.cons && depth > 0 {
        match parse_list(i, c.0, c.0 + c.1, depth - 1) {
            Some(l) => B::Kids(l),
            None => B::Leaf(i[c.0..c.0 + c.1].to_vec()),
        }
    } else {
        B::Leaf(i[c.0..c.0 + c.1].to_vec())
    };
    Some((T { tag, long, body }, e))
}
fn parse_list(i: &[u8], mut pos: usize, end: usize, depth: usize) -> Option<Vec<T>> {
    let mut v = vec![];
    while pos < end {
        let (t, p) = parse(i, pos, end, depth)?;
        v.push(t);
        pos = p;
    }
    Some(v)
}
const ODD_END: usize = 1000;
const ODD_ENDS: [&[u8]; 12] = [
    &[0x20, 0],
    &[0, 0x81, 0],
    &[0, 0x82, 0, 0],
    &[0x1f, 0, 0],
    &[0x1f, 0x80, 0, 0],
    &[0x3f, 0, 0x81, 0],
    &[0x40, 0],
    &[0x80, 0],
    &[0xe0, 0],
    &[0x20, 0x80, 0, 0],
    &[0, 1, 0],
    &[0, 0x81, 0, 0, 0],
];
fn encode(t: &T, out: &mut Vec<u8>) {
    let mut c = vec![];
    match &t.body {
        B::Leaf(b) => c.extend(b),
        B::Kids(l) => l.iter().for_each(|k| encode(k, &mut c)),
    }
    out.extend(&t.tag);
    match t.long {
        None => {
            out.push(0x80);
            out.extend(c);
            out.extend([0, 0]);
        }
        Some(0) => {
            out.extend(model::enc_len(c.len()));
            out.extend(c);
        }
        // indefinite length, ended by something that is no end-of-contents (or is it?)
        Some(x) if x >= ODD_END => {
            out.push(0x80);
            out.extend(c);
            out.extend(ODD_ENDS[(x - ODD_END) % ODD_ENDS.len()]);
        }
        Some(x) => {
            let b = (c.len() as u64).to_be_bytes();
            let k = 8 - b.iter().position(|&x| x != 0).unwrap_or(7);
            let tot = (k + x).min(126);
            out.push(0x80 | tot as u8);
            out.extend(std::iter::repeat(0).take(tot - k));
            out.extend(&b[8 - k..]);
            out.extend(c);
        }
    }
}
fn nodes(t: &T) -> usize {
    1 + match &t.body {
        B::Kids(l) => l.iter().map(nodes).sum(),
        _ => 0,
    }
}
fn nth(t: &mut T, k: &mut usize) -> Option<*mut T> {
    if *k == 0 {
        return Some(t as *mut T);
    }
    *k -= 1;
    if let B::Kids(l) = &mut t.body {
        for c in l {
            if let Some(x) = nth(c, k) {
                return Some(x);
            }
        }
    }
    None
}
fn tree_mutate(g: &mut Gen, v: &mut Vec<u8>, other: &[u8]) -> bool {
    let Some((mut t, e)) = parse(v, 0, v.len(), 60) else { return false };
    let n = nodes(&t);
    let mut k = g.r.below(n);
    let Some(p) = nth(&mut t, &mut k) else { return false };
    let x = unsafe { &mut *p };
    let uni = (x.tag[0] & 0x1f) as u32;
    match g.r.below(13) {
        0 => x.long = if x.tag[0] & 0x20 != 0 { None } else { Some(g.r.below(5)) },
        1 => x.long = Some(*g.r.pick(&[0usize, 1, 2, 7, 8, 118])),
        2 => x.tag[0] = (x.tag[0] & 0xe0) | g.r.below(31) as u8,
        3 => x.tag[0] ^= 0x20,
        4 => x.tag[0] ^= *g.r.pick(&[0x40u8, 0x80, 0xc0]),
        5 => x.tag = model::enc_tag(x.tag[0] >> 6, x.tag[0] & 0x20 != 0, g.tag()),
        6 => {
            let o = if g.r.chance(1, 2) { DER } else { BER };
            let mut c = g.content(uni, o);
            if g.r.chance(1, 2) {
                g.spoil(&mut c);
            }
            x.body = B::Leaf(c);
        }
        7 => {
            let c = x.clone();
            *x = T { tag: vec![*g.r.pick(&[0x30u8, 0x31, 0xa0, 0x24])], long: if g.r.chance(1, 3) { None } else { Some(0) }, body: B::Kids(vec![c]) };
        }
        8 => {
            if let Some((o, _)) = parse(other, 0, other.len(), 60) {
                match &mut x.body {
                    B::Kids(l) => {
                        let k = g.r.below(l.len() + 1);
                        l.insert(k, o)
                    }
                    _ => *x = o,
                }
            }
        }
        9 => {
            if let B::Kids(l) = &mut x.body {
                if !l.is_empty() {
                    let k = g.r.below(l.len());
                    match g.r.below(3) {
                        0 => {
                            l.remove(k);
                        }
                        1 => {
                            let c = l[k].clone();
                            let reps = if c.tag.len() < 4 && nodes(&c) < 4 { g.r.range(1, 20) } else { 1 };
                            for _ in 0..reps {
                                l.insert(k, c.clone());
                            }
                        }
                        _ => {
                            let j = g.r.below(l.len());
                            l.swap(j, k)
                        }
                    }
                }
            }
        }
        11 => {
            if g.r.chance(1, 2) && x.tag[0] & 0x20 != 0 {
                x.long = Some(ODD_END + g.r.below(ODD_ENDS.len()));
            }
        }
        10 => {
            if let B::Leaf(b) = &mut x.body {
                let n = g.size(2000);
                if n > b.len() {
                    let f = b.last().copied().unwrap_or(0);
                    b.resize(n, f);
                } else {
                    b.truncate(n);
                }
            }
        }
        _ => {
            if let B::Leaf(b) = &mut x.body {
                byte_mutate(g, b, &[]);
            }
        }
    }
    let tail = v[e..].to_vec();
    let mut out = vec![];
    encode(&t, &mut out);
    out.extend(tail);
    *v = out;
    true
}
fn byte_mutate(g: &mut Gen, v: &mut Vec<u8>, other: &[u8]) {
    let n = v.len();
    match g.r.below(11) {
        0 if n > 0 => {
            let k = g.r.below(n);
            v[k] ^= 1 << g.r.below(8);
        }
        1 | 2 if n > 0 => {
            let k = g.r.below(n.min(64));
            v[k] = g.byte();
        }
        3 if n > 0 => {
            let k = g.r.below(n);
            v[k] = v[k].wrapping_add(g.r.range(0, 4) as u8).wrapping_sub(2);
        }
        4 => {
            let k = g.r.below(n + 1);
            let b = g.byte();
            let reps = if g.r.chance(1, 4) { g.size(300) } else { 1 };
            v.splice(k..k, std::iter::repeat(b).take(reps));
        }
        5 if n > 0 => {
            let k = g.r.below(n);
            let e = (k + g.r.range(1, 6)).min(n);
            v.drain(k..e);
        }
        6 => {
            let x = g.num();
            let w = *g.r.pick(&[1usize, 2, 4, 8]);
            let mut b = x.to_be_bytes()[8 - w..].to_vec();
            if g.r.chance(1, 4) {
                b.reverse();
            }
            let k = g.r.below(n + 1);
            if k + w <= n && g.r.chance(2, 3) {
                v[k..k + w].copy_from_slice(&b);
            } else {
                v.splice(k..k, b);
            }
        }
        7 if !other.is_empty() => {
            let a = g.r.below(other.len());
            let e = (a + g.r.range(1, 40)).min(other.len());
            let k = g.r.below(n + 1);
            if g.r.chance(1, 2) {
                v.splice(k..k, other[a..e].iter().copied());
            } else {
                let e2 = (k + e - a).min(n);
                v.splice(k..e2, other[a..e].iter().copied());
            }
        }
        8 | 9 => {
            // input-to-state: a value that was compared is replaced by what it was compared with
            let pairs = recent_pairs();
            if pairs.is_empty() {
                return;
            }
            for _ in 0..8 {
                let (a, b) = *g.r.pick(&pairs);
                for w in [8usize, 4, 2, 1] {
                    if w < 8 && (a >> (8 * w) != 0 || b >> (8 * w) != 0) {
                        continue;
                    }
                    let (ab, bb) = (a.to_be_bytes(), b.to_be_bytes());
                    let (x, y) = (&ab[8 - w..], &bb[8 - w..]);
                    let hits: Vec<usize> = v.windows(w).enumerate().filter(|(_, s)| *s == x).map(|(k, _)| k).take(64).collect();
                    if !hits.is_empty() {
                        let k = *g.r.pick(&hits);
                        v[k..k + w].copy_from_slice(y);
                        return;
                    }
                }
            }
        }
        _ => {
            if n > 0 {
                let k = g.r.below(n + 1);
                v.truncate(k);
            }
        }
    }
}
pub fn mutate(g: &mut Gen, v: &mut Vec<u8>, other: &[u8], max: usize) {
    let n = 1 + g.r.below(4);
    for _ in 0..n {
        if !(g.r.chance(1, 2) && v.len() < 20_000 && tree_mutate(g, v, other)) {
            byte_mutate(g, v, other);
        }
    }
    v.truncate(max);
}

/// Elements far larger than what is generated: many items, long contents, a fault at the very end
pub fn big_cases(max: usize, emit: &mut dyn FnMut(crate::rt::Case)) {
    let mut n = 0u64;
    let mut put = |v: Vec<u8>| {
        n += 1;
        if v.len() <= max {
            emit(crate::rt::Case::new(v, n.wrapping_mul(0x9e37_79b9_7f4a_7c15)));
        }
    };
    let indef = |t: u8, c: &[u8]| [&[t, 0x80], c, &[0, 0]].concat();
    // many items
    for items in [5000usize, 33_000, 66_000, 1 << 20] {
        if items * 2 > max {
            continue;
        }
        let nulls = [5u8, 0].repeat(items);
        for t in [16u32, 17] {
            put(model::tlv(0, true, t, &nulls));
            put(indef(0x20 | t as u8, &nulls));
            put(model::tlv(2, true, 1, &model::tlv(0, true, t, &nulls)));
        }
        let mut ints = vec![];
        for k in 0..items.min(66_000) {
            ints.extend([2, 3, (k >> 16) as u8, (k >> 8) as u8, k as u8]);
        }
        put(model::tlv(0, true, 16, &ints));
        // the last item is not valid
        put(model::tlv(0, true, 16, &[&nulls[..], &[1, 0]].concat()));
        put(model::tlv(0, true, 17, &[&nulls[..], &[2, 1]].concat()));
        put(indef(0x31, &[&nulls[..], &[4, 0x80]].concat()));
        put(model::tlv(0, true, 16, &[&nulls[..], &[1, 1, 5]].concat()));
    }
    // a list of lists
    let row = model::tlv(0, true, 17, &[2, 1, 7].repeat(260));
    put(model::tlv(0, true, 16, &row.repeat(260)));
    // long contents
    for l in [5000usize, 66_000, 140_000, 1 << 20, (1 << 24) - 1, 1 << 24] {
        if l > max {
            continue;
        }
        for t in [2u32, 3, 4, 6, 13, 10] {
            let x = match t {
                2 => 0x7e,
                3 => 0,
                _ => 0x55,
            };
            let mut c = vec![x; l];
            put(model::tlv(0, false, t, &c));
            c[0] = if t == 2 { 0x81 } else { 0 };
            put(model::tlv(0, false, t, &c));
            *c.last_mut().unwrap() = 0x80;
            put(model::tlv(0, false, t, &c));
            put(model::tlv(1 + (t % 3) as u8, true, 3, &c));
            put(model::tlv(1 + (t % 3) as u8, false, 40, &c));
            put(indef(0x30, &model::tlv(3 - (t % 3) as u8, t % 2 == 0, 7, &c)));
        }
        for t in [7u32, 12, 18, 19, 20, 21, 22, 25, 26, 27] {
            if l > 1 << 20 {
                continue;
            }
            let mut c = vec![b'5'; l];
            put(model::tlv(0, false, t, &c));
            for bad in [0xffu8, 0x80, b'*', 0] {
                *c.last_mut().unwrap() = bad;
                put(model::tlv(0, false, t, &c));
            }
        }
        if l > 1 << 20 {
            continue;
        }
        // characters of several octets, at every alignment
        for ch in ["\u{e9}", "\u{20ac}", "\u{1d11e}"] {
            for k in 0..ch.len() {
                let t = "a".repeat(k) + &ch.repeat(l / ch.len());
                put(model::tlv(0, false, 12, t.as_bytes()));
                put(model::tlv(0, false, 12, &t.as_bytes()[..t.len() - 1]));
                if k == 1 {
                    put(model::tlv(0, true, 16, &[model::tlv(0, false, 12, t.as_bytes()), vec![5, 0]].concat()));
                }
            }
        }
        let u = l & !3;
        let mut c = [0u8, 0x41].repeat(u / 2);
        put(model::tlv(0, false, 30, &c));
        put(model::tlv(0, false, 30, &c[1..]));
        c[u - 2] = 0xd8;
        put(model::tlv(0, false, 30, &c));
        c[u - 4] = 0xdc;
        put(model::tlv(0, false, 30, &c));
        let mut c = [0u8, 1, 0xf6, 0].repeat(u / 4);
        put(model::tlv(0, false, 28, &c));
        c[u - 4] = 1;
        put(model::tlv(0, false, 28, &c));
    }
}
