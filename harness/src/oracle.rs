//! Independent implementation of the ClickHouse native wire format (the oracle).
//! Nothing here calls into clickhouse-rs.
use crate::city::city128;
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Bool, U8, U16, U32, U64, U128, I8, I16, I32, I64, I128, F32, F64,
    Str, FStr(usize), Date, DateTime(Option<&'static str>), DateTime64(u32, Option<&'static str>),
    Ip4, Ip6, Uuid, Dec(u8, u8), E8(Vec<(String, i8)>), E16(Vec<(String, i16)>),
    Nul(Box<Ty>), Arr(Box<Ty>), Map(Box<Ty>, Box<Ty>), LC(Box<Ty>), Saf(&'static str, Box<Ty>),
}
/// a cell: fixed width values as their little-endian wire bytes
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum V { N(Vec<u8>), S(Vec<u8>), Null, A(Vec<V>), M(Vec<(V, V)>) }

impl Ty {
    pub fn name(&self) -> String {
        use Ty::*;
        match self {
            Bool => "Bool".into(), U8 => "UInt8".into(), U16 => "UInt16".into(), U32 => "UInt32".into(), U64 => "UInt64".into(),
            U128 => "UInt128".into(), I8 => "Int8".into(), I16 => "Int16".into(), I32 => "Int32".into(), I64 => "Int64".into(),
            I128 => "Int128".into(), F32 => "Float32".into(), F64 => "Float64".into(), Str => "String".into(),
            FStr(n) => format!("FixedString({n})"), Date => "Date".into(),
            DateTime(None) => "DateTime".into(), DateTime(Some(tz)) => format!("DateTime('{tz}')"),
            DateTime64(p, None) => format!("DateTime64({p})"), DateTime64(p, Some(tz)) => format!("DateTime64({p}, '{tz}')"),
            Ip4 => "IPv4".into(), Ip6 => "IPv6".into(), Uuid => "UUID".into(), Dec(p, s) => format!("Decimal({p}, {s})"),
            E8(v) => format!("Enum8({})", v.iter().map(|(n, x)| format!("'{}' = {x}", esc(n))).collect::<Vec<_>>().join(", ")),
            E16(v) => format!("Enum16({})", v.iter().map(|(n, x)| format!("'{}' = {x}", esc(n))).collect::<Vec<_>>().join(", ")),
            Nul(t) => format!("Nullable({})", t.name()), Arr(t) => format!("Array({})", t.name()),
            Map(k, v) => format!("Map({}, {})", k.name(), v.name()), LC(t) => format!("LowCardinality({})", t.name()),
            Saf(f, t) => format!("SimpleAggregateFunction({f}, {})", t.name()),
        }
    }
    pub fn width(&self) -> Option<usize> {
        use Ty::*;
        Some(match self {
            Bool | U8 | I8 | E8(_) => 1, U16 | I16 | Date | E16(_) => 2, U32 | I32 | F32 | DateTime(_) | Ip4 => 4,
            U64 | I64 | F64 | DateTime64(..) => 8, U128 | I128 | Ip6 | Uuid => 16, Dec(p, _) => if *p <= 9 { 4 } else { 8 },
            FStr(n) => *n, _ => return None,
        })
    }
}

// ---------------------------------------------------------------- writer
#[derive(Default, Clone)]
pub struct W(pub Vec<u8>);
impl W {
    pub fn new() -> W { W(vec![]) }
    pub fn uv(&mut self, mut v: u64) -> &mut W {
        while v >= 128 { self.0.push((v as u8) | 128); v >>= 7; }
        self.0.push(v as u8); self
    }
    pub fn s(&mut self, s: &[u8]) -> &mut W { self.uv(s.len() as u64); self.0.extend_from_slice(s); self }
    pub fn str(&mut self, s: &str) -> &mut W { self.s(s.as_bytes()) }
    pub fn raw(&mut self, b: &[u8]) -> &mut W { self.0.extend_from_slice(b); self }
}
// ---------------------------------------------------------------- reader
pub struct Rd<'a> { pub b: &'a [u8], pub p: usize }
#[derive(Debug, Clone, PartialEq)]
pub enum OErr { More, Bad(String) }
pub type ORes<T> = Result<T, OErr>;
pub fn bad<T>(s: impl Into<String>) -> ORes<T> { Err(OErr::Bad(s.into())) }
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self { Rd { b, p: 0 } }
    pub fn take(&mut self, n: usize) -> ORes<&'a [u8]> {
        if self.b.len() - self.p < n { return Err(OErr::More); }
        let r = &self.b[self.p..self.p + n]; self.p += n; Ok(r)
    }
    pub fn u8(&mut self) -> ORes<u8> { Ok(self.take(1)?[0]) }
    pub fn uv(&mut self) -> ORes<u64> {
        let (mut v, mut i) = (0u128, 0u32);
        loop {
            let b = self.u8()?;
            if i >= 10 { return bad("varint longer than 10 bytes"); }
            v |= ((b & 127) as u128) << (7 * i);
            i += 1;
            if b < 128 {
                if b == 0 && i > 1 { return bad("non-minimal varint"); }
                if v > u64::MAX as u128 { return bad("varint over 64 bits"); }
                return Ok(v as u64);
            }
        }
    }
    pub fn s(&mut self) -> ORes<Vec<u8>> { let n = self.uv()? as usize; if n > 1 << 30 { return bad(format!("string length {n}")); } Ok(self.take(n)?.to_vec()) }
    pub fn str(&mut self) -> ORes<String> { String::from_utf8(self.s()?).or_else(|_| bad("string is not utf8")) }
    pub fn u32(&mut self) -> ORes<u32> { Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap())) }
    pub fn u64(&mut self) -> ORes<u64> { Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap())) }
}
// ---------------------------------------------------------------- columns
pub fn default_of(t: &Ty) -> V {
    match t { Ty::Str => V::S(vec![]), Ty::FStr(n) => V::S(vec![0; *n]), Ty::Nul(_) => V::Null, Ty::Arr(_) => V::A(vec![]), Ty::Map(..) => V::M(vec![]),
        Ty::LC(i) | Ty::Saf(_, i) => default_of(i), _ => V::N(vec![0; t.width().unwrap()]) }
}
/// serialization state prefixes come first, as the native format has them
fn enc_prefix(t: &Ty, w: &mut W) {
    match t {
        Ty::LC(_) => { w.raw(&1u64.to_le_bytes()); }
        Ty::Nul(i) | Ty::Arr(i) | Ty::Saf(_, i) => enc_prefix(i, w),
        Ty::Map(k, v) => { enc_prefix(k, w); enc_prefix(v, w) }
        _ => {}
    }
}
pub fn enc_col(t: &Ty, vs: &[V], w: &mut W) { enc_prefix(t, w); enc_body(t, vs, w) }
fn enc_body(t: &Ty, vs: &[V], w: &mut W) {
    match t {
        Ty::Str => for v in vs { if let V::S(s) = v { w.s(s); } else { panic!() } },
        Ty::FStr(_) => for v in vs { if let V::S(s) = v { w.raw(s); } else { panic!() } },
        Ty::Nul(i) => {
            for v in vs { w.0.push((*v == V::Null) as u8); }
            let d = default_of(i);
            let inner: Vec<V> = vs.iter().map(|v| if *v == V::Null { d.clone() } else { v.clone() }).collect();
            enc_body(i, &inner, w)
        }
        Ty::Arr(i) => {
            let mut off = 0u64; let mut inner = vec![];
            for v in vs { if let V::A(x) = v { off += x.len() as u64; w.raw(&off.to_le_bytes()); inner.extend(x.iter().cloned()) } else { panic!() } }
            enc_body(i, &inner, w)
        }
        Ty::Map(k, v) => {
            let mut off = 0u64; let (mut ks, mut xs) = (vec![], vec![]);
            for m in vs { if let V::M(x) = m { off += x.len() as u64; w.raw(&off.to_le_bytes()); for (a, b) in x { ks.push(a.clone()); xs.push(b.clone()) } } else { panic!() } }
            enc_body(k, &ks, w); enc_body(v, &xs, w)
        }
        Ty::Saf(_, i) => enc_body(i, vs, w),
        Ty::LC(i) => {
            if vs.is_empty() { return; }
            enc_lc(i, vs, w, None)
        }
        _ => for v in vs { if let V::N(b) = v { assert_eq!(b.len(), t.width().unwrap()); w.raw(b); } else { panic!() } },
    }
}
/// one LowCardinality granule; `width` forces an index width (bytes)
pub fn enc_lc(i: &Ty, vs: &[V], w: &mut W, width: Option<usize>) {
    let (inner, nullable) = match i { Ty::Nul(x) => (&**x, true), x => (x, false) };
    let mut dict: Vec<V> = vec![];
    let mut pos: std::collections::HashMap<V, u64> = Default::default();
    if nullable { dict.push(default_of(inner)); }
    // ClickHouse always keeps the default value at position 0 (1 after the null for nullable)
    dict.push(default_of(inner)); pos.insert(default_of(inner), dict.len() as u64 - 1);
    let mut idx = vec![];
    for v in vs {
        if nullable && *v == V::Null { idx.push(0); continue; }
        let n = dict.len() as u64;
        let p = *pos.entry(v.clone()).or_insert(n);
        if p == n { dict.push(v.clone()); }
        idx.push(p);
    }
    let wd = width.unwrap_or(if dict.len() <= 256 { 1 } else if dict.len() <= 65536 { 2 } else { 4 });
    let code = match wd { 1 => 0u64, 2 => 1, 4 => 2, _ => 3 };
    w.raw(&(code | (1 << 9) | (1 << 10)).to_le_bytes());
    w.raw(&(dict.len() as u64).to_le_bytes());
    enc_body(inner, &dict, w);
    w.raw(&(idx.len() as u64).to_le_bytes());
    for x in idx { w.raw(&x.to_le_bytes()[..wd]); }
}
fn dec_prefix(t: &Ty, r: &mut Rd) -> ORes<()> {
    match t {
        Ty::LC(_) => { let v = r.u64()?; if v != 1 { return bad(format!("LowCardinality version {v}")); } }
        Ty::Nul(i) | Ty::Arr(i) | Ty::Saf(_, i) => dec_prefix(i, r)?,
        Ty::Map(k, v) => { dec_prefix(k, r)?; dec_prefix(v, r)? }
        _ => {}
    }
    Ok(())
}
pub fn dec_col(t: &Ty, n: usize, r: &mut Rd) -> ORes<Vec<V>> { dec_prefix(t, r)?; dec_body(t, n, r) }
fn offsets(n: usize, r: &mut Rd) -> ORes<Vec<u64>> {
    let mut o = vec![]; let mut last = 0;
    for _ in 0..n { let x = r.u64()?; if x < last { return bad("offsets decrease"); } if x > 1 << 32 { return bad("offset too big"); } last = x; o.push(x); }
    Ok(o)
}
fn dec_body(t: &Ty, n: usize, r: &mut Rd) -> ORes<Vec<V>> {
    Ok(match t {
        Ty::Str => { let mut v = vec![]; for _ in 0..n { v.push(V::S(r.s()?)); } v }
        Ty::FStr(k) => { let mut v = vec![]; for _ in 0..n { v.push(V::S(r.take(*k)?.to_vec())); } v }
        Ty::Nul(i) => {
            let nulls = r.take(n)?.to_vec();
            let inner = dec_body(i, n, r)?;
            for b in &nulls { if *b > 1 { return bad("null flag is not 0/1"); } }
            inner.into_iter().zip(nulls).map(|(v, x)| if x == 1 { V::Null } else { v }).collect()
        }
        Ty::Arr(i) => {
            let o = offsets(n, r)?;
            let inner = dec_body(i, o.last().copied().unwrap_or(0) as usize, r)?;
            let mut v = vec![]; let mut p = 0;
            for x in o { v.push(V::A(inner[p..x as usize].to_vec())); p = x as usize; }
            v
        }
        Ty::Map(k, vt) => {
            let o = offsets(n, r)?; let m = o.last().copied().unwrap_or(0) as usize;
            let ks = dec_body(k, m, r)?; let xs = dec_body(vt, m, r)?;
            let mut v = vec![]; let mut p = 0;
            for x in o { v.push(V::M((p..x as usize).map(|i| (ks[i].clone(), xs[i].clone())).collect())); p = x as usize; }
            v
        }
        Ty::Saf(_, i) => dec_body(i, n, r)?,
        Ty::LC(i) => {
            if n == 0 { return Ok(vec![]); }
            let (inner, nullable) = match &**i { Ty::Nul(x) => (&**x, true), x => (x, false) };
            let h = r.u64()?;
            let wd = match h & 0xff { 0 => 1, 1 => 2, 2 => 4, 3 => 8, x => return bad(format!("index type {x}")) };
            if h & (1 << 8) != 0 { return bad("global dictionary"); }
            if h & (1 << 9) == 0 { return bad("no additional keys"); }
            let d = r.u64()? as usize; if d > 1 << 30 { return bad("dictionary size"); }
            let dict = dec_body(inner, d, r)?;
            let m = r.u64()? as usize; if m != n { return bad(format!("LowCardinality rows {m}, expected {n}")); }
            let mut v = vec![];
            for _ in 0..n {
                let mut b = [0u8; 8]; b[..wd].copy_from_slice(r.take(wd)?);
                let x = u64::from_le_bytes(b) as usize;
                if x >= d { return bad("index outside dictionary"); }
                v.push(if nullable && x == 0 { V::Null } else { dict[x].clone() });
            }
            v
        }
        _ => { let k = t.width().unwrap(); let mut v = vec![]; for _ in 0..n { v.push(V::N(r.take(k)?.to_vec())); } v }
    })
}
// ---------------------------------------------------------------- blocks
#[derive(Clone, Debug, PartialEq)]
pub struct Blk { pub cols: Vec<(String, Ty, Vec<V>)>, pub rows: usize }
impl Blk {
    pub fn new(cols: Vec<(String, Ty, Vec<V>)>) -> Blk { let rows = cols.first().map_or(0, |c| c.2.len()); Blk { cols, rows } }
    pub fn header(&self) -> Blk { Blk { cols: self.cols.iter().map(|(n, t, _)| (n.clone(), t.clone(), vec![])).collect(), rows: 0 } }
    pub fn raw(&self) -> Vec<u8> {
        let mut w = W::new();
        w.uv(1).raw(&[0]).uv(2).raw(&(-1i32).to_le_bytes()).uv(0);
        w.uv(self.cols.len() as u64).uv(self.rows as u64);
        for (n, t, v) in &self.cols { w.str(n).str(&t.name()); if self.rows > 0 { enc_col(t, v, &mut w); } }
        w.0
    }
}
/// raw block as the client sends it; `types` gives the structured type of each column
pub fn dec_block(r: &mut Rd, types: &dyn Fn(usize, &str, &str) -> ORes<Ty>) -> ORes<(Blk, Vec<String>)> {
    let (mut ovf, mut bucket) = (None, None);
    loop {
        match r.uv()? {
            0 => break,
            1 => ovf = Some(r.u8()?),
            2 => bucket = Some(r.u32()? as i32),
            x => return bad(format!("block info field {x}")),
        }
    }
    if ovf != Some(0) || bucket != Some(-1) { return bad(format!("block info {ovf:?} {bucket:?}")); }
    let nc = r.uv()? as usize; let nr = r.uv()? as usize;
    if nc > 100_000 || nr > 1 << 32 { return bad(format!("block size {nc}x{nr}")); }
    let mut cols = vec![]; let mut names = vec![];
    for i in 0..nc {
        let n = r.str()?; let tn = r.str()?;
        let t = types(i, &n, &tn)?;
        let v = if nr > 0 { dec_col(&t, nr, r)? } else { vec![] };
        names.push(tn);
        cols.push((n, t, v));
    }
    Ok((Blk { cols, rows: nr }, names))
}
// ---------------------------------------------------------------- frames
pub fn lz4_compress(d: &[u8]) -> Vec<u8> { lz4::block::compress(d, None, false).unwrap() }
pub fn lz4_decompress(d: &[u8], n: usize) -> ORes<Vec<u8>> { match lz4::block::decompress(d, Some(n as i32)) { Ok(v) if v.len() == n => Ok(v), Ok(v) => bad(format!("lz4 size {} != {n}", v.len())), Err(e) => bad(format!("lz4 {e}")) } }
/// uncompressed literals-only lz4 stream (does not depend on the compressor)
pub fn lz4_store(d: &[u8]) -> Vec<u8> {
    let mut o = vec![]; let n = d.len();
    if n < 15 { o.push((n as u8) << 4); } else { o.push(0xf0); let mut k = n - 15; while k >= 255 { o.push(255); k -= 255; } o.push(k as u8); }
    o.extend_from_slice(d); o
}
pub fn frame_of(payload: &[u8], original: u32) -> Vec<u8> {
    let mut b = vec![0x82u8];
    b.extend_from_slice(&((payload.len() + 9) as u32).to_le_bytes());
    b.extend_from_slice(&original.to_le_bytes());
    b.extend_from_slice(payload);
    let (lo, hi) = city128(&b);
    let mut o = lo.to_le_bytes().to_vec(); o.extend_from_slice(&hi.to_le_bytes()); o.extend(b); o
}
pub fn frame(d: &[u8]) -> Vec<u8> { frame_of(&lz4_compress(d), d.len() as u32) }
pub fn unframe(r: &mut Rd) -> ORes<Vec<u8>> {
    let lo = r.u64()?; let hi = r.u64()?; let s = r.p;
    let m = r.u8()?; if m != 0x82 { return bad(format!("compression method {m:#x}")); }
    let c = r.u32()? as usize; let n = r.u32()? as usize;
    if c < 9 || c > 1 << 30 { return bad(format!("compressed size {c}")); }
    let p = r.take(c - 9)?;
    if city128(&r.b[s..s + c]) != (lo, hi) { return bad("frame checksum"); }
    lz4_decompress(p, n)
}
// ---------------------------------------------------------------- generators
pub const TZS: [&str; 4] = ["UTC", "Europe/Moscow", "America/New_York", "Asia/Kolkata"];
/// characters that are awkward inside a quoted name
pub fn odd_name(r: &mut Rng) -> String { if r.one_in(3) { r.pick(&["'", "\\", ",", " = 1", "(", ")", "'='", "\\'", "ž", "', 'x' = 3", "\\\\", "=", " ", "\n", "\t\r", "\0", "\u{8}\u{c}", "\\n"]).to_string() } else { String::new() } }
pub fn gen_enum8(r: &mut Rng) -> Ty {
    let n = 1 + r.usize(5); let mut v: Vec<(String, i8)> = vec![]; let mut used = std::collections::HashSet::new();
    for i in 0..n { let x = r.u64() as i8; if used.insert(x) { let o = odd_name(r); v.push((format!("e{i}_{}{o}", r.below(100)), x)); } }
    Ty::E8(v)
}
pub fn gen_enum16(r: &mut Rng) -> Ty {
    let n = 1 + r.usize(5); let mut v: Vec<(String, i16)> = vec![]; let mut used = std::collections::HashSet::new();
    for i in 0..n { let x = r.u64() as i16; if used.insert(x) { let o = odd_name(r); v.push((format!("{o}E {i}{}", r.below(100)), x)); } }
    Ty::E16(v)
}
pub fn gen_leaf(r: &mut Rng) -> Ty {
    use Ty::*;
    match r.below(25) {
        0 => U8, 1 => U16, 2 => U32, 3 => U64, 4 => U128, 5 => I8, 6 => I16, 7 => I32, 8 => I64, 9 => I128, 10 => F32, 11 => F64,
        12 | 13 => Str, 14 => FStr(1 + r.usize(9)), 15 => Date, 16 => DateTime(None), 17 => DateTime64(r.below(10) as u32, Some(*r.pick(&TZS))),
        18 => Ip4, 19 => Ip6, 20 => Uuid, 21 => { let p = 1 + r.below(18) as u8; Dec(p, r.below(p as u64 + 1) as u8) }
        22 => gen_enum8(r), 23 => gen_enum16(r), _ => Bool,
    }
}
pub fn gen_bytes(r: &mut Rng) -> Vec<u8> {
    match r.below(8) { 0 => vec![], 1 => { let n = r.usize(300); r.bytes(n) } 2 => "žluťoučký kůň".as_bytes().to_vec(), 3 => { let n = 120 + r.usize(20); r.bytes(n) } _ => { let n = r.usize(12); (0..n).map(|_| b'a' + r.below(26) as u8).collect() } }
}
pub fn gen_utf8(r: &mut Rng) -> String { String::from_utf8_lossy(&gen_bytes(r)).into_owned() }
pub fn gen_val(r: &mut Rng, t: &Ty) -> V {
    match t {
        Ty::Str => V::S(gen_bytes(r)), Ty::FStr(n) => V::S(r.bytes(*n)),
        Ty::Bool => V::N(vec![r.below(2) as u8]),
        Ty::E8(v) => V::N(vec![r.pick(v).1 as u8]), Ty::E16(v) => V::N(r.pick(v).1.to_le_bytes().to_vec()),
        Ty::Dec(p, _) => { let lim = 10i64.pow(*p as u32) - 1; let x = match r.below(5) { 0 => 0, 1 => lim, 2 => -lim, _ => r.range(-lim, lim) }; V::N(x.to_le_bytes()[..t.width().unwrap()].to_vec()) }
        Ty::DateTime64(p, _) => { let m = 10i64.pow(*p); let secs = r.range(0, 4_000_000_000.min(i64::MAX / m - 1)); V::N((secs * m + r.range(0, m - 1)).to_le_bytes().to_vec()) }
        Ty::Nul(i) => if r.one_in(3) { V::Null } else { gen_val(r, i) },
        Ty::Arr(i) => { let n = r.len(6); V::A((0..n).map(|_| gen_val(r, i)).collect()) }
        Ty::Map(k, v) => { let n = r.len(5); let mut m: Vec<(V, V)> = vec![]; for _ in 0..n { let a = gen_val(r, k); if !m.iter().any(|(x, _)| *x == a) { m.push((a, gen_val(r, v))); } } V::M(m) }
        Ty::LC(i) | Ty::Saf(_, i) => gen_val(r, i),
        _ => { let n = t.width().unwrap(); V::N(match r.below(5) { 4 => { let m = 1 + r.usize(n); let p = r.bytes(m); let mut b: Vec<u8> = (0..n).map(|i| p[i % m]).collect(); if r.one_in(3) { let h = n / 2; for i in 0..h { b[n - 1 - i] = b[i]; } } if r.bool() && n > 1 { let q = p[0]; for x in b[..n / 2].iter_mut() { *x = q; } } b } 0 => vec![0; n], 1 => vec![255; n], 2 => { let mut b = vec![0; n]; b[0] = r.u64() as u8; b } _ => r.bytes(n) }) }
    }
}

/// A name as ClickHouse quotes it inside a type name.
fn esc(n: &str) -> String {
    n.chars().map(|c| match c { '\\' => "\\\\".into(), '\'' => "\\'".into(), '\n' => "\\n".into(), '\t' => "\\t".into(), '\r' => "\\r".into(), '\0' => "\\0".into(), '\u{8}' => "\\b".into(), '\u{c}' => "\\f".into(), _ => c.to_string() }).collect()
}
