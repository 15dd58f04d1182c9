//! values, decimals, dates, block building
use super::data::*; use super::typed::*; use crate::client::*; use crate::oracle::*; use crate::rng::Rng; use crate::Case;
use chrono::{DateTime, NaiveDate, TimeZone};
use chrono_tz::Tz;
use clickhouse_rs::types::{Block as CBlock, Decimal, Enum16, Enum8, Value};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use tokio::runtime::Runtime;

fn dec_str(u: i64, s: u8) -> String { let neg = u < 0; let a = (u as i128).unsigned_abs(); let p = 10u128.pow(s as u32); let i = a / p; let f = a % p; format!("{}{i}{}", if neg { "-" } else { "" }, if s == 0 { String::new() } else { format!(".{:0w$}", f, w = s as usize) }) }
fn gen_i64(r: &mut Rng) -> i64 { let x = r.edge_u64() as i64; if r.bool() { x } else { x.wrapping_neg() } }
/// Decimal
pub fn p13(c: &mut Case, rt: &Runtime) -> Result<(), String> {
    let k = c.rng.below(5);
    if k == 0 { let r = &mut c.rng; let p = 1 + r.below(18) as u8; let s = r.below(p as u64 + 1) as u8; let n = rows(r).min(30); let t = Ty::Dec(p, s); let cf = cfg(r); let tt = match r.below(3) { 0 => Ty::Nul(Box::new(t.clone())), 1 => Ty::Arr(Box::new(t.clone())), _ => t.clone() }; let b = gen_blk(r, vec![tt], n); c.tag = format!("wire{p},{s},{n}"); c.desc = describe(&b); return rt.block_on(echo(&cf, &b)); }
    let r = &mut c.rng;
    if k == 1 {
        // inserting into a column of another precision/scale
        let s0 = r.below(10) as u8; let n = 1 + r.usize(8); let p = 1 + r.below(18) as u8; let s1 = r.below(p as u64 + 1) as u8; let cf = cfg(r);
        let (p, s1) = if r.bool() { (18, r.below(19) as u8) } else { (p, s1) };
        let us: Vec<i64> = { let m = if r.bool() { 99_999 } else { let d = if s1 >= s0 { p as i32 - (s1 - s0) as i32 } else { 18 }; 10i64.pow(d.clamp(1, 18) as u32) - 1 }; (0..n).map(|_| r.range(-m, m)).collect() };
        let conv = |u: i64| -> i128 { if s1 >= s0 { u as i128 * 10i128.pow((s1 - s0) as u32) } else { let m = 10i128.pow((s0 - s1) as u32); u as i128 / m } };
        let lim = 10i128.pow(p as u32); if us.iter().any(|u| conv(*u).abs() >= lim) { c.tag = "skip".into(); return Ok(()); }
        let w = if p <= 9 { 4 } else { 8 };
        let o = Blk::new(vec![("d".into(), Ty::Dec(p, s1), us.iter().map(|u| V::N((conv(*u) as i64).to_le_bytes()[..w].to_vec())).collect())]);
        c.tag = format!("ins{s0}->{p},{s1}"); c.desc = format!("Decimals of scale {s0} {us:?} into Decimal({p}, {s1})");
        let nul = r.one_in(3);
        let nulls: Vec<bool> = us.iter().map(|_| r.one_in(4)).collect();
        let (o, b) = if nul { (Blk::new(vec![("d".into(), Ty::Nul(Box::new(Ty::Dec(p, s1))), o.cols[0].2.iter().zip(&nulls).map(|(v, n)| if *n { V::Null } else { v.clone() }).collect())]), CBlock::new().column("d", us.iter().zip(&nulls).map(|(u, n)| if *n { None } else { Some(Decimal::new(*u, s0)) }).collect::<Vec<_>>())) } else { (o, CBlock::new().column("d", us.iter().map(|u| Decimal::new(*u, s0)).collect::<Vec<_>>())) };
        // the column that was built is of a type that a server and this client know
        let tn = b.columns()[0].sql_type().to_string(); let want = if nul { format!("Nullable(Decimal(18, {s0}))") } else { format!("Decimal(18, {s0})") }; if tn != want && !(nul && nulls.iter().all(|n| *n)) { return Err(format!("a column built of Decimals of scale {s0} has type {tn}")); }
        let (ds, _) = rt.block_on(insert(&cf, &o, &b))?; return cmp_sent(&ds, &o);
    }
    let s = r.below(19) as u8; let u = gen_i64(r);
    c.tag = format!("{k}/{s}/{}", u.signum()); c.desc = format!("Decimal::new({u}, {s})");
    let d = Decimal::new(u, s);
    let i: i64 = d.internal(); if i != u || d.scale() != s as usize { return Err(format!("internal {i} scale {}", d.scale())); }
    let i: i32 = d.internal(); if i != u as i32 { return Err(format!("internal as i32 {i}")); }
    let txt = format!("{d}"); let w = dec_str(u, s);
    let norm = |x: &str| x.trim_end_matches('.').to_string();
    if norm(&txt) != w { return Err(format!("Decimal::new({u}, {s}) prints as {txt:?} instead of {w:?}")); }
    // equality is equality of numbers
    let s2 = r.below(19) as u8; let e = gen_i64(r);
    let u2 = match r.below(3) { 0 => e, _ => { let v = u as i128 * 10i128.pow(s2 as u32) / 10i128.pow(s as u32) + r.below(2) as i128; if v > i64::MAX as i128 || v < i64::MIN as i128 { e } else { v as i64 } } };
    let d2 = Decimal::new(u2, s2);
    let m = |u: i64, s: u8| u as i128 * 10i128.pow(18 - s as u32);
    // 10^18 * 2^63 fits in 127 bits
    let want = m(u, s) == m(u2, s2);
    c.desc = format!("{} == {} ?", dec_str(u, s), dec_str(u2, s2));
    if (d == d2) != want || (d2 == d) != want { return Err(format!("{} == {} gives {}", dec_str(u, s), dec_str(u2, s2), d == d2)); }
    // floats
    let f: f64 = f64::from(d.clone()); let wf = u as f64 / 10f64.powi(s as i32); if (f - wf).abs() > wf.abs() * 1e-12 { return Err(format!("{} as f64 is {f}", dec_str(u, s))); }
    // of
    let x = r.range(-100_000, 100_000) as i32; let s3 = r.below(13) as u8; let d3 = Decimal::of(x as i64, s3); let i: i64 = d3.internal(); if i != x as i64 * 10i64.pow(s3 as u32) { return Err(format!("Decimal::of({x}, {s3}) is {i}")); }
    { let y = r.u64(); let s4 = r.below(12) as u8; let sc = 10i64.pow(s4 as u32);
      macro_rules! of { ($t:ty) => { { let v = y as $t; let d = Decimal::of(v, s4); let i: i64 = d.internal(); if i as i128 != v as i128 * sc as i128 { return Err(format!("Decimal::of({v}{}, {s4}) is {i}", stringify!($t))); } } } }
      match r.below(5) { 0 => of!(i8), 1 => of!(u8), 2 => of!(i16), 3 => of!(u16), _ => { let s4 = s4.min(8); let v = y as i32; let i: i64 = Decimal::of(v, s4).internal(); if i != v as i64 * 10i64.pow(s4 as u32) { return Err(format!("Decimal::of({v}i32, {s4}) is {i}")); } } } }
    if d3 != Decimal::new(x as i64, 0) { return Err(format!("Decimal::of({x}, {s3}) != {x}")); }
    Ok(())
}
/// dates and times
pub fn p14(c: &mut Case, rt: &Runtime) -> Result<(), String> {
    let r = &mut c.rng; let cf = cfg(r); let n = rows(r).min(30);
    match r.below(4) {
        0 => { let p = r.below(10) as u32; let z = *r.pick(&TZS); let t = r.pick(&[Ty::Date, Ty::DateTime(None), Ty::DateTime(Some(z)), Ty::DateTime64(p, Some(z)), Ty::DateTime64(p, None)]).clone();
            let t = match r.below(4) { 0 => Ty::Nul(Box::new(t)), 1 => Ty::Arr(Box::new(t)), _ => t };
            let b = gen_blk(r, vec![t], n); c.tag = format!("wire{}/{n}", b.cols[0].1.name()); c.desc = describe(&b); rt.block_on(async { echo(&cf, &b).await?; let bs = fetch(&cf, &[b.clone()]).await?; for i in 0..n { check_cell(&bs[0], i, &b.cols[0].1, &b.cols[0].2[i], &cf.tz)?; } Ok(()) }) }
        1 => { // negative and sub-second DateTime64
            let p = r.below(10) as u32; let z = *r.pick(&TZS); let lim = (8_000_000_000i64).min(i64::MAX / 10i64.pow(9) - 1) * 10i64.pow(p);
            let vs: Vec<V> = (0..n.max(1)).map(|_| V::N(r.range(-(2_000_000_000i64 * 10i64.pow(p)).min(lim), lim).to_le_bytes().to_vec())).collect();
            let b = Blk::new(vec![("t".into(), Ty::DateTime64(p, Some(z)), vs)]); c.tag = format!("neg{p}{z}"); c.desc = format!("{} {:?}", describe(&b), b.cols[0].2.iter().map(|v| i64::from_le_bytes(by(v).try_into().unwrap())).collect::<Vec<_>>());
            rt.block_on(async { let bs = fetch(&cf, &[b.clone()]).await?; cmp_block("fetched", &bs[0], &b)?; for i in 0..b.rows { check_cell(&bs[0], i, &b.cols[0].1, &b.cols[0].2[i], &cf.tz)?; }
                // chrono values back into the table
                let ts: Vec<DateTime<Tz>> = (0..b.rows).map(|i| bs[0].get::<DateTime<Tz>, _>(i, 0).map_err(es)).collect::<Result<_, _>>()?;
                let cb = CBlock::new().column("t", ts); let (ds, _) = insert(&cf, &b, &cb).await?; cmp_sent(&ds, &b) }) }
        2 => { // dates built by the client
            let days: Vec<u16> = (0..n).map(|_| match r.below(4) { 0 => 0, 1 => 65535, _ => r.u64() as u16 }).collect();
            let e = NaiveDate::from_ymd_opt(1970, 1, 1).unwrap(); let ds: Vec<NaiveDate> = days.iter().map(|d| e + chrono::Duration::days(*d as i64)).collect();
            let vs: Vec<V> = days.iter().map(|d| V::N(d.to_le_bytes().to_vec())).collect();
            c.tag = format!("date{n}"); c.desc = format!("dates {days:?}");
            let (o, b) = match r.below(3) { 0 => (Blk::new(vec![("d".into(), Ty::Date, vs)]), CBlock::new().column("d", ds)), 1 => (Blk::new(vec![("d".into(), Ty::Nul(Box::new(Ty::Date)), vs)]), CBlock::new().column("d", ds.into_iter().map(Some).collect::<Vec<_>>())), _ => (Blk::new(vec![("d".into(), Ty::Arr(Box::new(Ty::Date)), vs.into_iter().map(|v| V::A(vec![v])).collect())]), CBlock::new().column("d", ds.into_iter().map(|d| vec![d]).collect::<Vec<_>>())) };
            cmp_block("built", &b, &o)?; let (s, _) = rt.block_on(insert(&cf, &o, &b))?; cmp_sent(&s, &o) }
        _ => { // instants built by the client in any zone
            let z: Tz = r.pick(&TZS).parse().unwrap(); let secs: Vec<u32> = (0..n).map(|_| match r.below(4) { 0 => 0, 1 => u32::MAX, _ => r.u64() as u32 }).collect();
            let ts: Vec<DateTime<Tz>> = secs.iter().map(|s| z.timestamp_opt(*s as i64, r.below(1_000_000_000) as u32).unwrap()).collect();
            let vs: Vec<V> = secs.iter().map(|s| V::N(s.to_le_bytes().to_vec())).collect();
            c.tag = format!("dt{n}{}", z.name()); c.desc = format!("instants {secs:?} in {}", z.name());
            let (o, b) = match r.below(3) { 0 => (Blk::new(vec![("d".into(), Ty::DateTime(None), vs)]), CBlock::new().column("d", ts)), 1 => (Blk::new(vec![("d".into(), Ty::Nul(Box::new(Ty::DateTime(None))), vs)]), CBlock::new().column("d", ts.into_iter().map(Some).collect::<Vec<_>>())), _ => (Blk::new(vec![("d".into(), Ty::Arr(Box::new(Ty::DateTime(None))), vs.into_iter().map(|v| V::A(vec![v])).collect())]), CBlock::new().column("d", ts.into_iter().map(|d| vec![d]).collect::<Vec<_>>())) };
            let (s, _) = rt.block_on(insert(&cf, &o, &b))?; cmp_sent(&s, &o)?;
            // pushed one by one into a column that came from the server
            let cz = *r.pick(&TZS); let p = r.below(8) as u32; let t = r.pick(&[Ty::DateTime(None), Ty::DateTime(Some(cz)), Ty::DateTime64(p, Some(cz)), Ty::DateTime64(p, None)]).clone();
            let conv = |s: u32| match &t { Ty::DateTime(_) => V::N(s.to_le_bytes().to_vec()), _ => V::N((s as i64 * 10i64.pow(p)).to_le_bytes().to_vec()) };
            let mut all = vec![conv(7)]; all.extend(secs.iter().map(|s| conv(*s)));
            let nul = r.one_in(3); let tt = if nul { Ty::Nul(Box::new(t.clone())) } else { t.clone() };
            c.desc += &format!(", pushed into {}", tt.name());
            let mut b = rt.block_on(fetch(&cf, &[Blk::new(vec![("d".into(), tt.clone(), vec![conv(7)])])]))?.remove(0);
            for s in &secs { let v = Value::from(z.timestamp_opt(*s as i64, 0).unwrap()); b.push(vec![("d".to_string(), if nul { Value::Nullable(either::Either::Right(Box::new(v))) } else { v })]).map_err(es)?; }
            let o = Blk::new(vec![("d".into(), tt, all)]); cmp_block("pushed", &b, &o)?; rt.block_on(send_back(&cf, &o, &b)) }
    }
}
/// Enum, IP, UUID
pub fn p16(c: &mut Case, rt: &Runtime) -> Result<(), String> {
    let r = &mut c.rng; let cf = cfg(r); let n = rows(r).min(30);
    let t = match r.below(5) { 0 => gen_enum8(r), 1 => gen_enum16(r), 2 => Ty::Ip4, 3 => Ty::Ip6, _ => Ty::Uuid };
    if r.bool() { let t = match r.below(4) { 0 => Ty::Nul(Box::new(t)), 1 => Ty::Arr(Box::new(t)), _ => t }; let b = gen_blk(r, vec![t], n); c.tag = format!("wire{}/{n}", kind(&b.cols[0].1)); c.desc = describe(&b);
        return rt.block_on(async { echo(&cf, &b).await?; let bs = fetch(&cf, &[b.clone()]).await?; for i in 0..n { check_cell(&bs[0], i, &b.cols[0].1, &b.cols[0].2[i], &cf.tz)?; } Ok(()) }); }
    let o = gen_blk(r, vec![t.clone()], n); let vs = &o.cols[0].2; let nm = o.cols[0].0.clone();
    c.tag = format!("built{}/{n}", kind(&t)); c.desc = describe(&o);
    let nul = r.bool(); let o = if nul { Blk::new(vec![(nm.clone(), Ty::Nul(Box::new(t.clone())), vs.iter().map(|v| if r.one_in(3) { V::Null } else { v.clone() }).collect())]) } else { o.clone() };
    let vs = &o.cols[0].2;
    macro_rules! mk { ($f:expr) => { if nul { CBlock::new().column(&nm, vs.iter().map(|v| if *v == V::Null { None } else { Some($f(v)) }).collect::<Vec<_>>()) } else { CBlock::new().column(&nm, vs.iter().map($f).collect::<Vec<_>>()) } } }
    let b = match t { Ty::Ip4 => mk!(w_ip4), Ty::Ip6 => mk!(w_ip6), Ty::Uuid => mk!(w_uuid),
        Ty::E8(_) => mk!(|v: &V| Enum8::of(by(v)[0] as i8)), _ => mk!(|v: &V| Enum16::of(i16::from_le_bytes(by(v).try_into().unwrap()))) };
    let (s, _) = rt.block_on(insert(&cf, &o, &b))?; cmp_sent(&s, &o)
}
/// building blocks row by row; clones are independent
/// blocks of every column type: cells moved from block to block as values
fn p21_any(c: &mut Case, rt: &Runtime) -> Result<(), String> {
    let r = &mut c.rng; let cf = cfg(r); let k = 1 + r.usize(3);
    let tys: Vec<Ty> = (0..k).map(|_| gen_ty(r)).collect(); let n = 1 + r.usize(8); let m = 1 + r.usize(4);
    let a = Blk::new(tys.iter().enumerate().map(|(i, t)| (format!("c{i}"), t.clone(), (0..n).map(|_| gen_val(r, t)).collect())).collect());
    let ext = gen_like(r, &a, m); let ext2 = gen_like(r, &a, m);
    c.tag = format!("any {}/{n}/{m}", tys.iter().map(kind).collect::<Vec<_>>().join(",")); c.desc = format!("{} cloned, {m} more rows pushed into each", describe(&a));
    let mut bs = rt.block_on(fetch(&cf, &[a.clone(), ext.clone(), ext2.clone()]))?; if bs.len() != 3 { return Err(format!("{} blocks instead of 3", bs.len())); }
    let (x2, x1) = (bs.remove(2), bs.remove(1)); let mut b = bs.remove(0);
    let vals = |x: &CBlock, i: usize| -> Result<Vec<(String, Value)>, String> { (0..k).map(|j| { let v: Raw = x.get(i, j).map_err(es)?; Ok((format!("c{j}"), v.0)) }).collect() };
    let mix = |r: &mut Rng, mut v: Vec<(String, Value)>| { if r.bool() { v.reverse(); } let j = r.usize(v.len()); v.rotate_left(j); v };
    let mut cl = b.clone(); cmp_block("clone", &cl, &a)?;
    if !tys.iter().any(|t| t.name().contains("Float")) && (cl != b || b != cl) { return Err("a clone differs from its original".into()); }
    for i in 0..m { cl.push(mix(r, vals(&x1, i)?)).map_err(es)?; }
    let sum1 = concat_blk(&[a.clone(), ext]); cmp_block("clone after pushes", &cl, &sum1)?; cmp_block("original after pushes into the clone", &b, &a)?;
    let cl2 = cl.clone();
    for i in 0..m { b.push(mix(r, vals(&x2, i)?)).map_err(es)?; }
    let sum2 = concat_blk(&[a.clone(), ext2]); cmp_block("original after its own pushes", &b, &sum2)?; cmp_block("clone after pushes into the original", &cl, &sum1)?;
    for i in 0..m { cl.push(mix(r, vals(&x2, i)?)).map_err(es)?; }
    cmp_block("clone of the clone after pushes into the clone", &cl2, &sum1)?;
    rt.block_on(send_back(&cf, &sum1, &cl2))?;
    // the same rows pushed into a new block
    let o = &bs; let _ = o; let src = rt.block_on(fetch(&cf, &[a.clone()]))?.remove(0);
    let mut nb = CBlock::new(); for i in 0..n { let v = vals(&src, i)?; nb.push(if i == 0 { v } else { mix(r, v) }).map_err(es)?; }
    cmp_block("new block", &nb, &a)
}
pub fn p21(c: &mut Case, rt: &Runtime) -> Result<(), String> {
    if c.rng.one_in(2) { return p21_any(c, rt); }
    let r = &mut c.rng; let cf = cfg(r);
    let k = 1 + r.usize(4);
    let ts = [Ty::U8, Ty::U32, Ty::U64, Ty::I16, Ty::I64, Ty::F64, Ty::Str, Ty::Date, Ty::Uuid, Ty::Ip4, Ty::Bool, Ty::Nul(Box::new(Ty::I16)), Ty::Nul(Box::new(Ty::Str)), Ty::Arr(Box::new(Ty::U32)), Ty::Arr(Box::new(Ty::Str))];
    let tys: Vec<Ty> = (0..k).map(|_| r.pick(&ts).clone()).collect();
    fn val(r: &mut Rng, t: &Ty) -> V { match t { Ty::Arr(i) if **i == Ty::Str => { let n = r.usize(4); V::A((0..n).map(|_| V::S(gen_utf8(r).into_bytes())).collect()) } t => gen_val(r, t) } }
    let n = 1 + r.usize(8); let m = r.usize(4);
    let mk = |r: &mut Rng, n: usize| Blk::new(tys.iter().enumerate().map(|(i, t)| { let v = (0..n).map(|_| val(r, t)).collect(); (format!("c{i}"), t.clone(), v) }).collect());
    let a = mk(r, n); let ext = mk(r, m); let ext2 = mk(r, m);
    let row = |b: &Blk, i: usize, rev: bool| { let mut x: Vec<(String, Value)> = b.cols.iter().map(|(nm, t, v)| (nm.clone(), to_value(t, &v[i]))).collect(); if rev { x.reverse(); } x };
    let from_wire = r.one_in(3); let revs: Vec<bool> = (0..n + 2 * m).map(|_| r.bool()).collect();
    c.tag = format!("{}/{n}/{m}/{from_wire}", tys.iter().map(|t| t.name()).collect::<Vec<_>>().join(",")); c.desc = format!("{} built {}, cloned, {m} more rows pushed into each", describe(&a), if from_wire { "from the wire" } else { "row by row" });
    let mut b = if from_wire { rt.block_on(fetch(&cf, &[a.clone()]))?.remove(0) } else { let mut b = CBlock::new(); for i in 0..n { b.push(row(&a, i, i > 0 && revs[i])).map_err(es)?; } b };
    cmp_block("block", &b, &a)?;
    let mut cl = b.clone(); cmp_block("clone", &cl, &a)?;
    let nan = a.cols.iter().any(|c| c.1 == Ty::F64 && c.2.iter().any(|v| if let V::N(b) = v { f64::from_bits(u64::from_le_bytes(b.as_slice().try_into().unwrap())).is_nan() } else { false }));
    if !nan && cl != b { return Err("a clone differs from its original".into()); }
    for i in 0..m { cl.push(row(&ext, i, revs[n + i])).map_err(es)?; }
    let sum1 = concat_blk(&[a.clone(), ext]); cmp_block("clone after pushes", &cl, &sum1)?; cmp_block("original after pushes into the clone", &b, &a)?;
    for i in 0..m { b.push(row(&ext2, i, revs[n + m + i])).map_err(es)?; }
    let sum2 = concat_blk(&[a, ext2]); cmp_block("original after its own pushes", &b, &sum2)?; cmp_block("clone after pushes into the original", &cl, &sum1)?;
    rt.block_on(send_back(&cf, &sum1, &cl))
}
/// values: equality and hashing
fn gen_value(r: &mut Rng, depth: u32) -> Value {
    let t = match r.below(8) { 0 => Ty::Nul(Box::new(r.pick(&[Ty::I16, Ty::Str, Ty::U8, Ty::F64]).clone())), 1 if depth > 0 => Ty::Arr(Box::new(r.pick(&[Ty::U32, Ty::Str]).clone())), _ => r.pick(&[Ty::Bool, Ty::U8, Ty::U16, Ty::U32, Ty::U64, Ty::U128, Ty::I8, Ty::I16, Ty::I32, Ty::I64, Ty::I128, Ty::Str, Ty::Date, Ty::Uuid, Ty::Ip4, Ty::Ip6]).clone() };
    if depth > 0 && r.one_in(8) { let mut m = std::collections::HashMap::new(); for _ in 0..r.usize(3) { m.insert(r.below(4) as u32, r.below(3) as u8); } return Value::from(m); }
    match r.below(6) { 0 => return Value::Decimal(Decimal::new(r.range(-20, 20), r.below(3) as u8)), 1 => return Value::DateTime(r.below(5) as u32, r.pick(&TZS).parse().unwrap()), 2 => return Value::DateTime64(r.range(-3, 3), (r.below(10) as u32, r.pick(&TZS).parse().unwrap())), 3 if r.bool() => return Value::Enum8(vec![("a".into(), 1)], Enum8::of(r.below(3) as i8)), _ => {} }
    let v = match &t { Ty::Str => V::S(vec![b'a'; r.usize(3)]), Ty::Arr(i) => { let n = r.usize(3); V::A((0..n).map(|_| match &**i { Ty::Str => V::S(vec![b'a'; r.usize(2)]), i => gen_val(r, i) }).collect()) } Ty::Nul(i) if **i == Ty::Str => if r.bool() { V::Null } else { V::S(vec![b'a'; r.usize(2)]) }, t => if r.bool() { let mut z = gen_val(r, t); if let V::N(b) = &mut z { for x in b.iter_mut() { *x &= 1; } } z } else { gen_val(r, t) } };
    to_value(&t, &v)
}
fn hash(v: &Value) -> u64 { let mut h = DefaultHasher::new(); v.hash(&mut h); h.finish() }
fn is_nan(v: &Value) -> bool { match v { Value::Float32(f) => f.is_nan(), Value::Float64(f) => f.is_nan(), Value::Nullable(either::Either::Right(x)) => is_nan(x), _ => false } }
pub fn p23(c: &mut Case, _rt: &Runtime) -> Result<(), String> {
    let r = &mut c.rng; let s = r.u64();
    let a = gen_value(&mut Rng::new(s), 1); let b = if r.bool() { gen_value(&mut Rng::new(s), 1) } else { gen_value(r, 1) }; let d = gen_value(r, 1);
    c.tag = format!("{:?}/{:?}", std::mem::discriminant(&a), std::mem::discriminant(&b)); c.desc = format!("{a:?} , {b:?} , {d:?}");
    if is_nan(&a) || is_nan(&b) || is_nan(&d) { return Ok(()); }
    if a != a.clone() { return Err(format!("{a:?} is not equal to its own copy")); }
    if (a == b) != (b == a) { return Err(format!("== is not symmetric on {a:?} and {b:?}")); }
    if a == b && b == d && a != d { return Err(format!("== is not transitive on {a:?} {b:?} {d:?}")); }
    if a == b && hash(&a) != hash(&b) { return Err(format!("{a:?} == {b:?} but their hashes differ")); }
    let same = format!("{a:?}") == format!("{b:?}");
    if same && a != b { return Err(format!("{a:?} and {b:?} are not equal")); }
    let _ = hash(&d);
    Ok(())
}
