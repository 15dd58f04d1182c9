//! column iterators: every item type asked of every column type
use super::data::*; use super::typed::{by, w_date, w_dec, w_dt, w_ip4, w_ip6, w_uuid}; use crate::client::*; use crate::oracle::*; use crate::rng::Rng; use crate::server::*; use crate::Case;
use chrono::{DateTime, NaiveDate, NaiveDateTime};
use chrono_tz::Tz;
use clickhouse_rs::types::{Column, Complex, Decimal, Simple};
use std::{collections::HashMap, fmt::Debug, net::{Ipv4Addr, Ipv6Addr}, panic::{catch_unwind, AssertUnwindSafe}};
use tokio::runtime::Runtime;
use uuid::Uuid;

/// an item of an iterator against the cell it has to be
trait Same { fn same(&self, t: &Ty, v: &V, tz: &str) -> bool; }
/// does the requested type correspond to the column type: None no, Some(true) it must be served, Some(false) it may be refused
trait Req { fn corr(t: &Ty, top: bool) -> Option<bool>; }
fn saf(t: &Ty) -> &Ty { if let Ty::Saf(_, i) = t { saf(i) } else { t } }
fn lc<'a>(t: &'a Ty, top: bool) -> (&'a Ty, bool) { if let Ty::LC(i) = t { (&**i, top) } else { (t, true) } }
macro_rules! num { ($($t:ident $k:ident),*) => { $(
    impl Same for &$t { fn same(&self, t: &Ty, v: &V, _: &str) -> bool { let _ = t; num_le!($t, **self) == by(v) } }
    impl Req for $t { fn corr(t: &Ty, _: bool) -> Option<bool> { if *saf(t) == Ty::$k { Some(true) } else { None } } }
)* } }
macro_rules! num_le { (bool, $x:expr) => { [$x as u8] }; ($t:ident, $x:expr) => { $x.to_le_bytes() } }
num! { u8 U8, u16 U16, u32 U32, u64 U64, u128 U128, i8 I8, i16 I16, i32 I32, i64 I64, i128 I128, f32 F32, f64 F64, bool Bool }
impl Same for &[u8] { fn same(&self, _: &Ty, v: &V, _: &str) -> bool { *self == by(v) } }
impl Req for &[u8] { fn corr(t: &Ty, top: bool) -> Option<bool> { if let Ty::Saf(..) = t { return match saf(t) { Ty::Str | Ty::FStr(_) => Some(false), _ => None }; } let (t, must) = lc(t, top); match t { Ty::Str | Ty::FStr(_) => Some(must), _ => None } } }
impl Same for NaiveDate { fn same(&self, _: &Ty, v: &V, _: &str) -> bool { *self == w_date(v) } }
impl Req for NaiveDate { fn corr(t: &Ty, top: bool) -> Option<bool> { match lc(t, top).0 { Ty::Date => Some(top), Ty::Saf(..) if *saf(t) == Ty::Date => Some(false), _ => None } } }
fn un(t: &Ty) -> &Ty { match t { Ty::LC(i) | Ty::Saf(_, i) => un(i), t => t } }
fn is_dt(t: &Ty, top: bool) -> Option<bool> { match lc(t, top).0 { Ty::DateTime(_) | Ty::DateTime64(..) => Some(top), Ty::Saf(..) if matches!(saf(t), Ty::DateTime(_) | Ty::DateTime64(..)) => Some(false), _ => None } }
impl Same for DateTime<Tz> { fn same(&self, t: &Ty, v: &V, tz: &str) -> bool { let w = w_dt(un(t), v, tz); *self == w && self.timezone() == w.timezone() } }
impl Req for DateTime<Tz> { fn corr(t: &Ty, top: bool) -> Option<bool> { is_dt(t, top) } }
impl Same for NaiveDateTime { fn same(&self, t: &Ty, v: &V, tz: &str) -> bool { *self == w_dt(un(t), v, tz).naive_utc() } }
impl Req for NaiveDateTime { fn corr(t: &Ty, top: bool) -> Option<bool> { is_dt(t, top) } }
macro_rules! leaf { ($($t:ty, $k:pat, $w:expr);*) => { $(
    impl Same for $t { fn same(&self, t: &Ty, v: &V, _: &str) -> bool { let f: fn(&$t, &Ty, &V) -> bool = $w; f(self, un(t), v) } }
    impl Req for $t { fn corr(t: &Ty, _: bool) -> Option<bool> { if matches!(t, $k) { Some(true) } else if matches!(saf(t), $k) { Some(false) } else { None } } }
)* } }
leaf! { Ipv4Addr, Ty::Ip4, |x, _, v| *x == w_ip4(v); Ipv6Addr, Ty::Ip6, |x, _, v| *x == w_ip6(v); Uuid, Ty::Uuid, |x, _, v| *x == w_uuid(v);
    Decimal, Ty::Dec(..), |x, t, v| { let i: i64 = x.internal(); i == w_dec(t, v) && matches!(t, Ty::Dec(_, s) if x.scale() == *s as usize) } }
impl<T: Same> Same for Option<T> { fn same(&self, t: &Ty, v: &V, tz: &str) -> bool { let Ty::Nul(i) = t else { return false }; match (self, v) { (None, V::Null) => true, (Some(x), v) => *v != V::Null && x.same(i, v, tz), _ => false } } }
impl<T: Req> Req for Option<T> { fn corr(t: &Ty, _: bool) -> Option<bool> { if let Ty::Nul(i) = t { T::corr(i, false) } else { None } } }
impl<T: Same> Same for Vec<T> { fn same(&self, t: &Ty, v: &V, tz: &str) -> bool { match (t, v) { (Ty::Arr(i), V::A(a)) => a.len() == self.len() && a.iter().zip(self).all(|(v, x)| x.same(i, v, tz)), _ => false } } }
impl<T: Req> Req for Vec<T> { fn corr(t: &Ty, _: bool) -> Option<bool> { if let Ty::Arr(i) = t { T::corr(i, false) } else { None } } }
impl<A: Same, B: Same> Same for HashMap<A, B> { fn same(&self, t: &Ty, v: &V, tz: &str) -> bool { match (t, v) { (Ty::Map(k, e), V::M(m)) =>
    // a key that occurs twice keeps its last value
    m.iter().enumerate().filter(|(i, p)| m[i + 1..].iter().all(|q| q.0 != p.0)).count() == self.len() && self.iter().all(|(x, y)| m.iter().rev().find(|p| x.same(k, &p.0, tz)).map_or(false, |p| y.same(e, &p.1, tz))), _ => false } } }
impl<A: Req, B: Req> Req for HashMap<A, B> { fn corr(t: &Ty, _: bool) -> Option<bool> { if let Ty::Map(k, e) = t { Some(A::corr(k, false)? && B::corr(e, false)?) } else { None } } }

pub fn seq<I, T>(what: &str, mk: &dyn Fn() -> Result<I, String>, n: usize, eq: &dyn Fn(usize, &T) -> bool, r: &mut Rng) -> Result<(), String> where I: Iterator<Item = T>, T: Debug {
    let mut it = mk().map_err(|e| format!("{what} iter: {e}"))?; let mut k = 0;
    while let Some(x) = it.next() { if k >= n { return Err(format!("{what}: more than {n} items")); } if !eq(k, &x) { return Err(format!("{what}: item {k} is {x:?}")); } k += 1; }
    if k != n { return Err(format!("{what}: {k} items instead of {n}")); }
    if it.next().is_some() || it.next().is_some() { return Err(format!("{what}: items after the end")); }
    // skipping
    let mut it = mk()?; let mut p = 0;
    for _ in 0..6 {
        let s = match r.below(4) { 0 => 0, 1 => n.saturating_sub(p), _ => r.usize(4) };
        let x = it.nth(s);
        if p + s >= n { if x.is_some() { return Err(format!("{what}: nth({s}) at {p} of {n} gives {x:?}")); } if it.next().is_some() { return Err(format!("{what}: items after the end")); } break; }
        match x { None => return Err(format!("{what}: nth({s}) at {p} of {n} is empty")), Some(x) => if !eq(p + s, &x) { return Err(format!("{what}: nth({s}) at {p} gives {x:?}")) } }
        p += s + 1;
        let (lo, hi) = it.size_hint(); if lo > n - p || hi.map_or(false, |h| h < n - p) { return Err(format!("{what}: size_hint {lo},{hi:?} with {} left", n - p)); }
    }
    let mut it = mk()?; let take = r.usize(n + 1); for _ in 0..take { it.next(); }
    let cnt = it.count(); if cnt != n - take { return Err(format!("{what}: count {cnt} after {take} of {n}")); }
    Ok(())
}
macro_rules! ask { ($col:expr, $t:expr, $vs:expr, $tz:expr, $r:expr, $($rt:ty),* $(,)?) => { $( {
    let (col, t, vs, tz) = ($col, $t, $vs, $tz); let what = format!("{} as {}", t.name(), stringify!($rt));
    let got = catch_unwind(AssertUnwindSafe(|| col.iter::<$rt>().map(|_| ()).map_err(es))).map_err(|_| format!("iterating {what} panics"))?;
    match (got, <$rt as Req>::corr(t, true)) {
        (Ok(_), None) => return Err(format!("iterating {what} is not refused")),
        (Err(_), None) | (Err(_), Some(false)) => {}
        (Err(e), Some(true)) => return Err(format!("iterating {what} is refused: {e}")),
        (Ok(_), Some(_)) => catch_unwind(AssertUnwindSafe(|| seq(&what, &|| col.iter::<$rt>().map_err(es), vs.len(), &|i, x| x.same(t, &vs[i], tz), $r))).map_err(|_| format!("iterating {what} panics"))??,
    }
} )* } }
macro_rules! maps { ($col:expr, $t:expr, $vs:expr, $tz:expr, $r:expr, $($k:ty),*) => { $(
    ask!($col, $t, $vs, $tz, $r, HashMap<$k, u8>, HashMap<$k, u32>, HashMap<$k, &[u8]>, HashMap<$k, Option<u16>>, HashMap<$k, Vec<u8>>, HashMap<$k, Decimal>, HashMap<$k, Uuid>, HashMap<$k, HashMap<&[u8], u8>>, HashMap<$k, Vec<HashMap<&[u8], u8>>>, HashMap<$k, Vec<Vec<HashMap<u16, Vec<u32>>>>>);
)* } }
macro_rules! wraps { ($col:expr, $t:expr, $vs:expr, $tz:expr, $r:expr, $($k:ty),*) => { $(
    ask!($col, $t, $vs, $tz, $r, $k, Option<$k>, Vec<$k>, Vec<Option<$k>>);
)* } }
macro_rules! iters { ($name:ident, $K:ty) => {
pub fn $name(col: &Column<$K>, t: &Ty, vs: &[V], tz: &str, r: &mut Rng) -> Result<(), String> {
    wraps!(col, t, vs, tz, r, u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, bool, &[u8], NaiveDate, DateTime<Tz>, NaiveDateTime, Ipv4Addr, Ipv6Addr, Uuid, Decimal);
    maps!(col, t, vs, tz, r, u8, u64, i32, &[u8], Uuid, Ipv4Addr, Ipv6Addr, NaiveDate);
    ask!(col, t, vs, tz, r, HashMap<Vec<u8>, u32>, HashMap<Vec<&[u8]>, Vec<u16>>, HashMap<u8, HashMap<Vec<Vec<u16>>, u32>>, HashMap<Option<u16>, &[u8]>, Vec<HashMap<Vec<Vec<u16>>, u32>>, Vec<Vec<u16>>, Vec<Vec<Vec<&[u8]>>>, Vec<HashMap<&[u8], u8>>, Vec<Vec<HashMap<&[u8], u8>>>, Vec<HashMap<u16, Vec<HashMap<&[u8], Option<u32>>>>>, HashMap<u8, HashMap<&[u8], HashMap<u16, &[u8]>>>, HashMap<u8, HashMap<&[u8], HashMap<u16, Vec<u32>>>>);
    Ok(())
} } }
iters!(iter_simple, Simple);
iters!(iter_complex, Complex);

fn shape(r: &mut Rng) -> Ty {
    let b = |t: Ty| Box::new(t);
    let key = |r: &mut Rng| r.pick(&[Ty::U8, Ty::U64, Ty::I32, Ty::Str, Ty::FStr(5), Ty::Uuid, Ty::Ip4, Ty::Ip6, Ty::Dec(9, 2), Ty::Date]).clone();
    let sm = |k: Ty, v: Ty| Ty::Map(Box::new(k), Box::new(v));
    match r.below(22) {
        18 => sm(Ty::Arr(b(Ty::U8)), Ty::U32), 19 => match r.below(4) { 3 => Ty::Arr(b(sm(Ty::Arr(b(Ty::Arr(b(Ty::U16)))), Ty::U32))), 0 => sm(Ty::Arr(b(Ty::Str)), Ty::Arr(b(Ty::U16))), 1 => sm(Ty::U8, sm(Ty::Arr(b(Ty::Arr(b(Ty::U16)))), Ty::U32)), _ => sm(Ty::Nul(b(Ty::U16)), Ty::Str) },
        0 | 1 => Ty::Nul(b(gen_leaf(r))), 2 => Ty::Arr(b(gen_leaf(r))), 3 => Ty::Arr(b(Ty::Nul(b(gen_leaf(r))))),
        4 => Ty::LC(b(r.pick(&[Ty::Str, Ty::FStr(4), Ty::Date, Ty::DateTime(None)]).clone())),
        5 => Ty::Arr(b(Ty::Arr(b(Ty::U16)))), 6 => Ty::Arr(b(Ty::Arr(b(Ty::Arr(b(r.pick(&[Ty::Str, Ty::FStr(3)]).clone())))))),
        7 | 8 => { let k = key(r); let v = match r.below(10) { 0 => Ty::Nul(b(Ty::U16)), 1 => Ty::Arr(b(Ty::U8)), _ => r.pick(&[Ty::U8, Ty::U32, Ty::Str, Ty::FStr(2), Ty::Dec(6, 1), Ty::Uuid]).clone() }; sm(k, v) }
        9 => { let k = key(r); sm(k, sm(Ty::Str, Ty::U8)) }
        10 => { let k = key(r); sm(k, Ty::Arr(b(sm(Ty::Str, Ty::U8)))) }
        11 => { let k = key(r); sm(k, Ty::Arr(b(Ty::Arr(b(sm(Ty::U16, Ty::Arr(b(Ty::U32)))))))) }
        12 => Ty::Arr(b(sm(Ty::Str, Ty::U8))), 13 => Ty::Arr(b(Ty::Arr(b(sm(Ty::Str, Ty::U8))))),
        14 => Ty::Arr(b(sm(Ty::U16, Ty::Arr(b(sm(Ty::FStr(2), Ty::Nul(b(Ty::U32)))))))),
        15 => sm(Ty::U8, sm(Ty::Str, sm(Ty::U16, Ty::Str))), 16 => sm(Ty::U8, sm(Ty::FStr(3), sm(Ty::U16, Ty::Arr(b(Ty::U32))))),
        17 => Ty::Saf("any", b(gen_leaf(r))), 20 => Ty::Saf("any", b(Ty::Nul(b(gen_leaf(r))))), _ => gen_leaf(r),
    }
}
pub fn p22(c: &mut Case, rt: &Runtime) -> Result<(), String> {
    let cf = cfg(&mut c.rng); let r = &mut c.rng;
    let t = if r.one_in(3) { gen_leaf(r) } else { shape(r) };
    let n0 = rows(r).min(40); let b0 = gen_blk(r, vec![t.clone()], n0); let mut bs = vec![b0];
    for _ in 0..r.usize(4) { let n = r.usize(6); let b = gen_like(r, &bs[0], n); bs.push(b); }
    let sum = concat_blk(&bs);
    c.tag = format!("{}/{:?}", kind(&t), bs.iter().map(|b| b.rows).collect::<Vec<_>>()); c.desc = format!("iterate {} in blocks of {:?}", t.name(), bs.iter().map(|b| b.rows).collect::<Vec<_>>());
    let rep = select_reply(&cf, &bs);
    rt.block_on(async {
        let s = Script::new(vec![Reply::Bytes(rep.clone(), vec![]), Reply::Bytes(rep, vec![])]); let srv = start(cf.clone(), s); let p = pool(srv.port, &cf, false);
        let (bl, al) = lim("query", async { let mut h = p.get_handle().await.map_err(es)?; Ok((blocks(&mut h, "S").await.map_err(es)?, all(&mut h, "S").await.map_err(es)?)) }).await?;
        for (x, o) in bl.iter().zip(&bs) { iter_simple(&x.columns()[0], &t, &o.cols[0].2, &cf.tz, r)?; }
        iter_complex(&al.columns()[0], &t, &sum.cols[0].2, &cf.tz, r)
    })
}
