//! Reference model: what an encoding denotes, written from X.690 and the documentation of the crate.
//! Independent of der-parser and asn1-rs. Offsets are absolute in the input given at the top.

pub type S = (usize, usize); // offset, length (empty slices are normalised to (0, 0))
pub const MAXREC: usize = 50;
pub const MAXOBJ: usize = 4_294_967_295;

#[derive(Clone, Debug, PartialEq)]
pub struct H {
    pub class: u8,
    pub cons: bool,
    pub tag: u32,
    pub len: Option<usize>,
    pub raw: Option<S>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct N {
    pub h: H,
    pub v: V,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tz {
    None,
    Z,
    Off(i8, i8),
}
#[derive(Clone, Debug, PartialEq)]
pub struct T {
    pub y: u32,
    pub f: [u8; 5],
    pub ms: Option<u16>,
    pub tz: Tz,
}
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Eoc,
    Bool(bool),
    Int(S),
    Bits(u8, S),
    Oct(S),
    Null,
    Enum(u64),
    Oid(S),
    RelOid(S),
    Str(u32, S),
    Bmp(S),
    Univ(S),
    Seq(Vec<N>),
    Set(Vec<N>),
    Utc(T),
    Gen(T),
    Unk(u8, bool, u32, Option<usize>, S),
    Opt(Option<Box<N>>),
    Tagged(u8, u32, Box<N>),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K {
    MaxDepth,
    Der(&'static str),
    TooLarge,
    Negative,
    Tag,
    Other,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum E {
    Inc,
    Err(K),
}
pub type R<X> = Result<X, E>;
const OTHER: E = E::Err(K::Other);

pub fn sl(o: usize, l: usize) -> S {
    if l == 0 {
        (0, 0)
    } else {
        (o, l)
    }
}

/// Header at pos in the window i[pos..end]; returns (header, position after it)
pub fn header(i: &[u8], pos: usize, end: usize, der: bool) -> R<(H, usize)> {
    if pos >= end {
        return Err(E::Inc);
    }
    let b0 = i[pos];
    let cons = b0 & 0x20 != 0;
    let mut p = pos + 1;
    let mut tag = (b0 & 0x1f) as u32;
    if tag == 0x1f {
        tag = 0;
        let mut n = 0;
        loop {
            if p >= end || n == 5 {
                return Err(OTHER);
            }
            let b = i[p];
            p += 1;
            n += 1;
            tag = (tag << 7) | (b & 0x7f) as u32;
            if b & 0x80 == 0 {
                break;
            }
        }
    }
    let raw = sl(pos, p - pos);
    if p >= end {
        return Err(E::Inc);
    }
    let l0 = i[p];
    p += 1;
    let len = if l0 < 0x80 {
        Some(l0 as usize)
    } else if l0 == 0x80 {
        if der {
            return Err(E::Err(K::Der("IndefiniteLength")));
        }
        if !cons {
            return Err(OTHER);
        }
        None
    } else if l0 == 0xff {
        return Err(OTHER);
    } else {
        let n = (l0 & 0x7f) as usize;
        if end - p < n {
            return Err(E::Inc);
        }
        let mut v: u64 = 0;
        for &b in &i[p..p + n] {
            if v >> 56 != 0 {
                return Err(OTHER);
            }
            v = (v << 8) | b as u64;
        }
        p += n;
        Some(v as usize)
    };
    Ok((H { class: b0 >> 6, cons, tag, len, raw: Some(raw) }, p))
}

/// End position of the element whose content starts at pos, and whether it was an end-of-contents
fn skip(i: &[u8], pos: usize, end: usize, h: &H, depth: usize) -> R<(usize, bool)> {
    if depth == 0 {
        return Err(E::Err(K::MaxDepth));
    }
    match h.len {
        Some(l) => {
            if l == 0 && h.class == 0 && h.tag == 0 {
                return Ok((pos, true));
            }
            if end - pos < l {
                return Err(E::Inc);
            }
            Ok((pos + l, false))
        }
        None => {
            if !h.cons {
                return Err(OTHER);
            }
            let mut p = pos;
            loop {
                let (h2, p2) = header(i, p, end, false)?;
                let (p3, eoc) = skip(i, p2, end, &h2, depth - 1)?;
                if eoc {
                    if p2 - p != 2 || i[p] != 0 || i[p + 1] != 0 {
                        return Err(OTHER);
                    }
                    return Ok((p3, false));
                }
                p = p3;
            }
        }
    }
}
/// Content slice of an element and the position after it
pub fn content(i: &[u8], pos: usize, end: usize, h: &H, depth: usize) -> R<(S, usize)> {
    let (e, _) = skip(i, pos, end, h, depth)?;
    let l = if h.len.is_none() { e - pos - 2 } else { e - pos };
    Ok(((pos, l), e))
}

fn digit2(b: &[u8]) -> Option<u8> {
    if b[0].is_ascii_digit() && b[1].is_ascii_digit() {
        Some((b[0] - b'0') * 10 + b[1] - b'0')
    } else {
        None
    }
}
fn tz(rem: &[u8]) -> Option<Tz> {
    match rem {
        [b'Z'] => Some(Tz::Z),
        [s @ (b'+' | b'-'), r @ ..] if r.len() == 4 => {
            let h = digit2(&r[..2])? as i8;
            let m = digit2(&r[2..])? as i8;
            Some(Tz::Off(if *s == b'-' { -h } else { h }, m))
        }
        _ => None,
    }
}
pub fn time(b: &[u8], utc: bool) -> Option<T> {
    if b.iter().any(|&c| !(0x20..=0x7f).contains(&c)) {
        return None;
    }
    let yl = if utc { 2 } else { 4 };
    if b.len() < yl + 8 + 1 {
        return None;
    }
    let mut y = 0u32;
    for k in (0..yl).step_by(2) {
        y = y * 100 + digit2(&b[k..k + 2])? as u32;
    }
    let mut f = [0u8; 5];
    for k in 0..4 {
        f[k] = digit2(&b[yl + 2 * k..yl + 2 * k + 2])?;
    }
    let mut rem = &b[yl + 8..];
    if rem.len() >= 2 {
        f[4] = digit2(rem)?;
        rem = &rem[2..];
    }
    if f[0] > 12 || f[1] > 31 || f[2] > 23 || f[3] > 59 || f[4] > 59 {
        return None;
    }
    let mut ms = None;
    if utc {
        return Some(T { y, f, ms, tz: tz(rem)? });
    }
    if let [b'.' | b',', r @ ..] = rem {
        let nd = r.iter().take_while(|c| c.is_ascii_digit()).count();
        let v = |n: usize| r[..n].iter().fold(0u16, |a, c| a * 10 + (c - b'0') as u16);
        // 1 to 3 digits; a fourth one is tolerated when nothing follows
        let val = match nd {
            1 => v(1) * 100,
            2 => v(2) * 10,
            3 => v(3),
            4 if r.len() == 4 => v(4),
            // dialect: a zone directly after the separator means a zero fraction
            0 if !r.is_empty() => 0,
            _ => return None,
        };
        ms = Some(val);
        rem = &r[nd..];
        if !rem.is_empty() && !matches!(rem[0], b'Z' | b'+' | b'-') {
            return None;
        }
    }
    if rem.is_empty() {
        return Some(T { y, f, ms, tz: Tz::None });
    }
    Some(T { y, f, ms, tz: tz(rem)? })
}

pub fn charset_ok(tag: u32, b: &[u8]) -> bool {
    match tag {
        12 => std::str::from_utf8(b).is_ok(),
        18 => b.iter().all(|&c| c == b' ' || c.is_ascii_digit()),
        19 => b.iter().all(|&c| c.is_ascii_alphanumeric() || b" '()+,-./:=?".contains(&c)),
        20 | 21 | 26 => b.iter().all(|&c| (0x20..=0x7f).contains(&c)),
        7 | 22 | 25 | 27 => b.is_ascii(),
        30 => b.len() % 2 == 0 && String::from_utf16(&b.chunks_exact(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect::<Vec<_>>()).is_ok(),
        _ => true,
    }
}

/// Value of contents c of universal type tag
pub fn value(i: &[u8], h: &H, c: S, depth: usize) -> R<V> {
    if depth == 0 {
        return Err(E::Err(K::MaxDepth));
    }
    let s = sl(c.0, c.1);
    let b = &i[c.0..c.0 + c.1];
    if h.class != 0 {
        return Ok(V::Unk(h.class, h.cons, h.tag, h.len, s));
    }
    Ok(match h.tag {
        0 => V::Eoc,
        1 => {
            if h.len != Some(1) {
                return Err(OTHER);
            }
            V::Bool(b[0] != 0)
        }
        2 => V::Int(s),
        3 => {
            if b.is_empty() || h.cons {
                return Err(OTHER);
            }
            V::Bits(b[0], sl(c.0 + 1, c.1 - 1))
        }
        4 => V::Oct(s),
        5 => V::Null,
        6 => V::Oid(s),
        13 => V::RelOid(s),
        10 => {
            if h.cons {
                return Err(OTHER);
            }
            let mut v: u64 = 0;
            for &x in b {
                if v > u32::MAX as u64 {
                    return Err(E::Err(K::TooLarge));
                }
                v = (v << 8) | x as u64;
            }
            if v > u32::MAX as u64 {
                return Err(E::Err(K::TooLarge));
            }
            V::Enum(v)
        }
        7 | 12 | 18 | 19 | 20 | 21 | 22 | 25 | 26 | 27 | 30 | 28 => {
            if h.cons || !charset_ok(h.tag, b) {
                return Err(OTHER);
            }
            match h.tag {
                30 => V::Bmp(s),
                28 => V::Univ(s),
                t => V::Str(t, s),
            }
        }
        23 => V::Utc(time(b, true).ok_or(OTHER)?),
        24 => V::Gen(time(b, false).ok_or(OTHER)?),
        16 | 17 => {
            if !h.cons {
                return Err(OTHER);
            }
            let mut v = Vec::new();
            let end = c.0 + c.1;
            let mut p = c.0;
            while p < end {
                let (h2, c2, p2) = any(i, p, end).map_err(|e| if e == E::Inc { OTHER } else { e })?;
                let val = value(i, &h2, c2, depth - 1)?;
                v.push(N { h: h2, v: val });
                p = p2;
            }
            if h.tag == 16 {
                V::Seq(v)
            } else {
                V::Set(v)
            }
        }
        _ => V::Unk(0, h.cons, h.tag, h.len, s),
    })
}
fn any(i: &[u8], pos: usize, end: usize) -> R<(H, S, usize)> {
    let (h, p) = header(i, pos, end, false)?;
    let (c, p) = content(i, p, end, &h, MAXREC)?;
    Ok((h, c, p))
}
/// generic BER parser with a depth limit
pub fn ber(i: &[u8], d: usize) -> R<(N, usize)> {
    ber_at(i, 0, i.len(), d)
}
pub fn ber_at(i: &[u8], pos: usize, end: usize, d: usize) -> R<(N, usize)> {
    if d == 0 {
        return Err(E::Err(K::MaxDepth));
    }
    let (h, c, p) = any(i, pos, end)?;
    let v = value(i, &h, c, d)?;
    Ok((N { h, v }, p))
}
/// contents read as universal type tag
pub fn ber_content_as(i: &[u8], pos: usize, end: usize, tag: u32, len: Option<usize>, cons: bool, d: usize) -> R<(V, usize)> {
    if let Some(l) = len {
        if l > MAXOBJ {
            return Err(OTHER);
        }
        if end - pos < l {
            return Err(E::Inc);
        }
    }
    let h = H { class: 0, cons, tag, len, raw: None };
    let (c, p) = content(i, pos, end, &h, d)?;
    Ok((value(i, &h, c, d)?, p))
}
pub fn ber_with_tag(i: &[u8], tag: u32) -> R<(N, usize)> {
    let (h, p) = header(i, 0, i.len(), false)?;
    if h.tag != tag {
        return Err(E::Err(K::Tag));
    }
    let (v, p) = ber_content_as(i, p, i.len(), h.tag, h.len, h.cons, MAXREC)?;
    Ok((N { h, v }, p))
}
pub fn der(i: &[u8], d: usize) -> R<(N, usize)> {
    der_at(i, 0, i.len(), d)
}
pub fn der_at(i: &[u8], pos: usize, end: usize, d: usize) -> R<(N, usize)> {
    let (h, p) = header(i, pos, end, true)?;
    if h.len.unwrap() > MAXOBJ {
        return Err(OTHER);
    }
    if h.class != 0 {
        let (c, p) = content(i, p, end, &h, d)?;
        let v = V::Unk(h.class, h.cons, h.tag, h.len, sl(c.0, c.1));
        return Ok((N { h, v }, p));
    }
    let (v, p) = der_content_as(i, p, end, h.tag, h.len, h.cons, d)?;
    Ok((N { h, v }, p))
}
pub fn der_content_as(i: &[u8], pos: usize, end: usize, tag: u32, len: Option<usize>, cons: bool, d: usize) -> R<(V, usize)> {
    if d == 0 {
        return Err(E::Err(K::MaxDepth));
    }
    let Some(l) = len else {
        return Err(E::Err(K::Der("IndefiniteLength")));
    };
    if end - pos < l {
        return Err(E::Inc);
    }
    let b = &i[pos..pos + l];
    let der = |c| Err(E::Err(K::Der(c)));
    match tag {
        1 => {
            if l != 1 {
                return Err(OTHER);
            }
            if b[0] != 0 && b[0] != 0xff {
                return der("InvalidBoolean");
            }
        }
        2 => match b {
            [] => return der("IntegerEmpty"),
            [0, x, ..] if *x < 0x80 => return der("IntegerLeadingZeroes"),
            [0xff, x, ..] if *x >= 0x80 => return der("IntegerLeadingFF"),
            _ => (),
        },
        3 => {
            if cons {
                return der("Constructed");
            }
            if b.is_empty() || b[0] > 7 {
                return Err(OTHER);
            }
            if l > 1 && b[l - 1] & ((1u16 << b[0]) - 1) as u8 != 0 {
                return der("UnusedBitsNotZero");
            }
        }
        4 | 7 | 12 | 18 | 19 | 20 | 21 | 22 | 25 | 26 | 27 | 28 | 30 => {
            if cons {
                return der("Constructed");
            }
        }
        23 | 24 => {
            if b.last() != Some(&b'Z') {
                return der("MissingTimeZone");
            }
        }
        16 | 17 => {
            if !cons {
                return Err(OTHER);
            }
            let mut v = Vec::new();
            let e = pos + l;
            let mut p = pos;
            while p < e {
                let (n, p2) = der_at(i, p, e, d - 1).map_err(|x| if x == E::Inc { OTHER } else { x })?;
                v.push(n);
                p = p2;
            }
            return Ok((if tag == 16 { V::Seq(v) } else { V::Set(v) }, pos + l));
        }
        _ => (),
    }
    ber_content_as(i, pos, end, tag, len, cons, d)
}
pub fn der_with_tag(i: &[u8], tag: u32) -> R<(N, usize)> {
    let (h, p) = header(i, 0, i.len(), true)?;
    if h.tag != tag {
        return Err(E::Err(K::Tag));
    }
    let (v, p) = der_content_as(i, p, i.len(), h.tag, h.len, h.cons, MAXREC)?;
    Ok((N { h, v }, p))
}
/// End of the outermost element, if it is entirely present (nothing else is checked)
pub fn frame(i: &[u8]) -> R<usize> {
    let (h, p) = header(i, 0, i.len(), false)?;
    let (_, e) = content(i, p, i.len(), &h, MAXREC)?;
    Ok(e)
}

// ------------------------------------------------------------ encoding
pub fn enc_tag(class: u8, cons: bool, tag: u32) -> Vec<u8> {
    let b0 = (class << 6) | if cons { 0x20 } else { 0 };
    if tag < 31 {
        return vec![b0 | tag as u8];
    }
    let mut v = vec![];
    let mut t = tag;
    loop {
        v.push((t & 0x7f) as u8 | if v.is_empty() { 0 } else { 0x80 });
        t >>= 7;
        if t == 0 {
            break;
        }
    }
    v.push(b0 | 0x1f);
    v.reverse();
    v
}
pub fn enc_len(n: usize) -> Vec<u8> {
    if n < 128 {
        return vec![n as u8];
    }
    let b = n.to_be_bytes();
    let k = b.iter().position(|&x| x != 0).unwrap();
    let mut v = vec![0x80 | (8 - k) as u8];
    v.extend(&b[k..]);
    v
}
pub fn tlv(class: u8, cons: bool, tag: u32, c: &[u8]) -> Vec<u8> {
    let mut v = enc_tag(class, cons, tag);
    v.extend(enc_len(c.len()));
    v.extend(c);
    v
}
/// base-128 subidentifier of an arbitrarily large component given as big-endian bytes
pub fn enc_time(t: &T, utc: bool) -> Vec<u8> {
    let mut s = if utc { format!("{:02}", t.y % 100) } else { format!("{:04}", t.y) };
    for x in t.f {
        s += &format!("{x:02}");
    }
    if let Some(ms) = t.ms {
        let mut f = format!("{ms:03}");
        while f.len() > 1 && f.ends_with('0') {
            f.pop();
        }
        s += ".";
        s += &f;
    }
    match t.tz {
        Tz::None => (),
        Tz::Z => s += "Z",
        Tz::Off(h, m) => s += &format!("{}{:02}{:02}", if h < 0 { '-' } else { '+' }, (h as i32).abs(), (m as i32).abs()),
    }
    s.into_bytes()
}
/// Contents octets of a value (what serialization has to write); slices are taken from i
pub fn enc_value(i: &[u8], v: &V, out: &mut Vec<u8>) {
    let mut put = |s: &S| out.extend_from_slice(&i[s.0..s.0 + s.1]);
    match v {
        V::Eoc | V::Null | V::Opt(None) => (),
        V::Bool(b) => out.push(if *b { 0xff } else { 0 }),
        V::Int(s) | V::Oct(s) | V::Oid(s) | V::RelOid(s) | V::Str(_, s) | V::Bmp(s) | V::Univ(s) | V::Unk(_, _, _, _, s) => put(s),
        V::Bits(u, s) => {
            out.push(*u);
            out.extend_from_slice(&i[s.0..s.0 + s.1]);
        }
        V::Enum(x) => {
            let b = x.to_be_bytes();
            let k = b.iter().position(|&x| x != 0).unwrap_or(7);
            if b[k] >= 0x80 {
                out.push(0);
            }
            out.extend(&b[k..]);
        }
        V::Utc(t) => out.extend(enc_time(t, true)),
        V::Gen(t) => out.extend(enc_time(t, false)),
        V::Seq(l) | V::Set(l) => {
            for n in l {
                enc_node(i, n, out);
            }
        }
        V::Opt(Some(n)) => enc_value(i, &n.v, out),
        V::Tagged(_, _, n) => enc_node(i, n, out),
    }
}
pub fn enc_node(i: &[u8], n: &N, out: &mut Vec<u8>) {
    if n.v == V::Opt(None) {
        return;
    }
    let mut c = Vec::new();
    enc_value(i, &n.v, &mut c);
    out.extend(tlv(n.h.class, n.h.cons, n.h.tag, &c));
}
pub fn height(n: &N) -> usize {
    match &n.v {
        V::Seq(l) | V::Set(l) => 1 + l.iter().map(height).max().unwrap_or(0),
        V::Opt(Some(o)) => height(o),
        V::Tagged(_, _, o) => 1 + height(o),
        _ => 1,
    }
}
pub fn count(n: &N) -> usize {
    match &n.v {
        V::Seq(l) | V::Set(l) => 1 + l.iter().map(count).sum::<usize>(),
        V::Opt(Some(o)) | V::Tagged(_, _, o) => 1 + count(o),
        _ => 1,
    }
}
