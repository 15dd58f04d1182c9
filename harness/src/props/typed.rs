//! typed access and column iterators
use super::data::*; use super::iters::seq; use crate::client::*; use crate::oracle::*; use crate::rng::Rng; use crate::server::*; use crate::Case;
use chrono::{DateTime, NaiveDate, TimeZone};
use chrono_tz::Tz;
use clickhouse_rs::types::{Block as CBlock, Column, ColumnType, Complex, Decimal, Enum16, Enum8, FromSql};
use std::net::{Ipv4Addr, Ipv6Addr};
use tokio::runtime::Runtime;
use uuid::Uuid;

fn le<const N: usize>(v: &V) -> [u8; N] { if let V::N(b) = v { b.as_slice().try_into().unwrap() } else { panic!() } }
pub fn by(v: &V) -> &[u8] { match v { V::N(b) | V::S(b) => b, _ => panic!() } }
pub fn w_date(v: &V) -> NaiveDate { NaiveDate::from_ymd_opt(1970, 1, 1).unwrap() + chrono::Duration::days(u16::from_le_bytes(le(v)) as i64) }
pub fn w_dt(t: &Ty, v: &V, tz: &str) -> DateTime<Tz> {
    match t { Ty::DateTime(z) => z.unwrap_or(tz).parse::<Tz>().unwrap().timestamp_opt(u32::from_le_bytes(le(v)) as i64, 0).unwrap(),
        Ty::DateTime64(p, z) => { let x = i64::from_le_bytes(le(v)); let m = 10i64.pow(*p); z.unwrap_or(tz).parse::<Tz>().unwrap().timestamp_opt(x.div_euclid(m), (x.rem_euclid(m) * (1_000_000_000 / m)) as u32).unwrap() } _ => panic!() }
}
pub fn w_ip4(v: &V) -> Ipv4Addr { Ipv4Addr::from(u32::from_le_bytes(le(v))) }
pub fn w_ip6(v: &V) -> Ipv6Addr { Ipv6Addr::from(le::<16>(v)) }
pub fn w_uuid(v: &V) -> Uuid { let b: [u8; 16] = le(v); Uuid::from_u64_pair(u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[8..].try_into().unwrap())) }
pub fn w_dec(t: &Ty, v: &V) -> i64 { if t.width() == Some(4) { i32::from_le_bytes(le(v)) as i64 } else { i64::from_le_bytes(le(v)) } }

/// which Rust type (by our name) reads which column type
fn reads(rust: &str, t: &Ty) -> bool {
    if let Some(i) = rust.strip_prefix("Option ") { return match t { Ty::Nul(x) => reads(i, x), Ty::LC(x) | Ty::Saf(_, x) => reads(rust, x), _ => false }; }
    if let Some(i) = rust.strip_prefix("Vec ") { if rust == "Vec u8" && matches!(t, Ty::Str | Ty::FStr(_)) { return true; } return match t { Ty::Arr(x) => reads(i, x) && !matches!(**x, Ty::FStr(_) | Ty::DateTime64(..) ), Ty::LC(x) | Ty::Saf(_, x) => reads(rust, x), _ => false }; }
    match t {
        Ty::Bool => rust == "bool", Ty::U8 => rust == "u8", Ty::U16 => rust == "u16", Ty::U32 => rust == "u32", Ty::U64 => rust == "u64", Ty::U128 => rust == "u128",
        Ty::I8 => rust == "i8", Ty::I16 => rust == "i16", Ty::I32 => rust == "i32", Ty::I64 => rust == "i64", Ty::I128 => rust == "i128", Ty::F32 => rust == "f32", Ty::F64 => rust == "f64",
        Ty::Str | Ty::FStr(_) => rust == "String" || rust == "&str" || rust == "&[u8]",
        Ty::Date => rust == "NaiveDate", Ty::DateTime(_) | Ty::DateTime64(..) => rust == "DateTime", Ty::Ip4 => rust == "Ipv4Addr", Ty::Ip6 => rust == "Ipv6Addr", Ty::Uuid => rust == "Uuid",
        Ty::Dec(..) => rust == "Decimal", Ty::E8(_) => rust == "Enum8", Ty::E16(_) => rust == "Enum16",
        Ty::LC(x) | Ty::Saf(_, x) => reads(rust, x), _ => false,
    }
}
fn attempt<'a, T: FromSql<'a>, K: ColumnType>(b: &'a CBlock<K>, row: usize, rust: &str, t: &Ty, v: &V, f: &dyn Fn(&T, &V) -> bool, show_: &dyn Fn(&T) -> String) -> Result<(), String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.get::<T, usize>(row, 0)));
    match r {
        Err(_) => Err(format!("reading {} as {rust} panics", t.name())),
        Ok(Ok(_)) if *v == V::Null && rust.starts_with("Option ") && !reads(rust, t) => Ok(()),
        Ok(Ok(x)) => if !reads(rust, t) { Err(format!("{} cell {} read as {rust} gives {} instead of an error", t.name(), show(v), show_(&x))) } else if !f(&x, v) { Err(format!("{} cell {} read as {rust} gives {}", t.name(), show(v), show_(&x))) } else { Ok(()) },
        Ok(Err(e)) => if reads(rust, t) && !((rust.contains("String") || rust.contains("&str")) && utf8_fails(v)) { Err(format!("{} cell {} cannot be read as {rust}: {e}", t.name(), show(v))) } else { Ok(()) },
    }
}
fn utf8_fails(v: &V) -> bool { match v { V::S(s) => std::str::from_utf8(s).is_err(), V::A(a) => a.iter().any(utf8_fails), _ => false } }
macro_rules! tries { ($b:expr, $row:expr, $t:expr, $v:expr, $( $name:expr, $rt:ty, $f:expr );* $(;)?) => { $(
    attempt::<$rt, _>($b, $row, $name, $t, $v, &|x: &$rt, v: &V| -> bool { let g: fn(&$rt, &V) -> bool = $f; g(x, v) }, &|x| format!("{x:?}"))?;
    attempt::<Option<$rt>, _>($b, $row, concat!("Option ", $name), $t, $v, &|x, v: &V| match (x, v) { (None, V::Null) => true, (Some(x), v) if *v != V::Null => { let g: fn(&$rt, &V) -> bool = $f; g(x, v) } _ => false }, &|x| format!("{x:?}"))?;
)* } }
macro_rules! vecs { ($b:expr, $row:expr, $t:expr, $v:expr, $( $name:expr, $rt:ty, $f:expr );* $(;)?) => { $(
    attempt::<Vec<$rt>, _>($b, $row, concat!("Vec ", $name), $t, $v, &|x: &Vec<$rt>, v: &V| match v { V::A(a) => { let g: fn(&$rt, &V) -> bool = $f; a.len() == x.len() && x.iter().zip(a).all(|(x, v)| g(x, v)) } _ => false }, &|x| format!("{x:?}"))?;
)* } }
pub fn check_cell<K: ColumnType>(b: &CBlock<K>, row: usize, t: &Ty, v: &V, tz: &str) -> Result<(), String> {
    tries! { b, row, t, v,
        "bool", bool, |x, v| by(v) == [*x as u8];
        "u8", u8, |x, v| x.to_le_bytes() == by(v); "u16", u16, |x, v| x.to_le_bytes() == by(v); "u32", u32, |x, v| x.to_le_bytes() == by(v); "u64", u64, |x, v| x.to_le_bytes() == by(v); "u128", u128, |x, v| x.to_le_bytes() == by(v);
        "i8", i8, |x, v| x.to_le_bytes() == by(v); "i16", i16, |x, v| x.to_le_bytes() == by(v); "i32", i32, |x, v| x.to_le_bytes() == by(v); "i64", i64, |x, v| x.to_le_bytes() == by(v); "i128", i128, |x, v| x.to_le_bytes() == by(v);
        "f32", f32, |x, v| x.to_bits().to_le_bytes() == by(v); "f64", f64, |x, v| x.to_bits().to_le_bytes() == by(v);
        "String", String, |x, v| x.as_bytes() == by(v); "&str", &str, |x, v| x.as_bytes() == by(v); "&[u8]", &[u8], |x, v| *x == by(v);
        "NaiveDate", NaiveDate, |x, v| *x == w_date(v); "Ipv4Addr", Ipv4Addr, |x, v| *x == w_ip4(v); "Ipv6Addr", Ipv6Addr, |x, v| *x == w_ip6(v); "Uuid", Uuid, |x, v| *x == w_uuid(v);
        "Enum8", Enum8, |x, v| x.internal().to_le_bytes() == by(v); "Enum16", Enum16, |x, v| x.internal().to_le_bytes() == by(v);
        "Decimal", Decimal, |x, v| { let i: i64 = x.internal(); let b = by(v); i.to_le_bytes()[..b.len()] == *b };
    }
    let inner = match t { Ty::Nul(i) | Ty::Saf(_, i) => &**i, x => x };
    let inner2 = inner.clone(); let tzs = tz.to_string();
    attempt::<DateTime<Tz>, _>(b, row, "DateTime", t, v, &|x, v| { let w = w_dt(&inner2, v, &tzs); *x == w && x.timezone() == w.timezone() }, &|x| format!("{x:?}"))?;
    attempt::<Option<DateTime<Tz>>, _>(b, row, "Option DateTime", t, v, &|x, v| match (x, v) { (None, V::Null) => true, (Some(x), v) if *v != V::Null => *x == w_dt(&inner2, v, &tzs), _ => false }, &|x| format!("{x:?}"))?;
    attempt::<Vec<u8>, _>(b, row, "Vec u8", t, v, &|x, v| match v { V::S(s) => x == s, V::A(a) => a.len() == x.len() && a.iter().zip(x).all(|(v, x)| by(v) == [*x]), _ => false }, &|x| format!("{x:?}"))?;
    vecs! { b, row, t, v,
        "bool", bool, |x, v| by(v) == [*x as u8];
        "u16", u16, |x, v| x.to_le_bytes() == by(v); "u32", u32, |x, v| x.to_le_bytes() == by(v); "u64", u64, |x, v| x.to_le_bytes() == by(v); "u128", u128, |x, v| x.to_le_bytes() == by(v);
        "i8", i8, |x, v| x.to_le_bytes() == by(v); "i16", i16, |x, v| x.to_le_bytes() == by(v); "i32", i32, |x, v| x.to_le_bytes() == by(v); "i64", i64, |x, v| x.to_le_bytes() == by(v); "i128", i128, |x, v| x.to_le_bytes() == by(v);
        "f32", f32, |x, v| x.to_bits().to_le_bytes() == by(v); "f64", f64, |x, v| x.to_bits().to_le_bytes() == by(v);
        "String", String, |x, v| x.as_bytes() == by(v); "&str", &str, |x, v| x.as_bytes() == by(v); "&[u8]", &[u8], |x, v| *x == by(v);
        "NaiveDate", NaiveDate, |x, v| *x == w_date(v); "Enum8", Enum8, |x, v| x.internal().to_le_bytes() == by(v); "Enum16", Enum16, |x, v| x.internal().to_le_bytes() == by(v);
    }
    Ok(())
}
pub fn p17(c: &mut Case, rt: &Runtime) -> Result<(), String> {
    let cf = cfg(&mut c.rng); let r = &mut c.rng;
    let leaf = gen_leaf(r);
    let t = match r.below(4) { 0 => Ty::Nul(Box::new(leaf)), 1 => Ty::Arr(Box::new(leaf)), _ => leaf };
    let n = 1 + r.usize(4); let b = gen_blk(r, vec![t.clone()], n);
    c.tag = kind(&t); c.desc = format!("{} read as every type: {}", t.name(), b.cols[0].2.iter().map(show).collect::<Vec<_>>().join(" "));
    rt.block_on(async {
        let bs = fetch(&cf, &[b.clone()]).await?;
        for i in 0..n { check_cell(&bs[0], i, &t, &b.cols[0].2[i], &cf.tz)?; }
        // columns by name and by a name that is not there
        let nm = &b.cols[0].0; let _: Raw = bs[0].get(0, nm.as_str()).map_err(es)?;
        if bs[0].get::<Raw, _>(0, "no such column").is_ok() { return Err("a column that does not exist was read".into()); }
        let far = n + match r.below(3) { 0 => 0, 1 => 1, _ => r.usize(1 << 40) };
        if bs[0].get::<Raw, _>(far, 0).is_ok() { return Err(format!("row {far} of {n} was read")); }
        let fc = 1 + match r.below(3) { 0 => 0, 1 => 1, _ => r.usize(1 << 40) };
        if bs[0].get::<Raw, _>(0, fc).is_ok() || bs[0].get_column(fc).is_ok() { return Err(format!("column {fc} of 1 was read")); }
        let row = bs[0].rows().next().ok_or("no row")?; if row.get::<Raw, _>(fc).is_ok() || row.name(fc).is_ok() || row.sql_type(fc).is_ok() { return Err(format!("column {fc} of a row of 1 was read")); }
        Ok(())
    })
}
// ------------------------------------------------------------------ column iterators
macro_rules! iters { ($fname:ident, $K:ty) => {
fn $fname(col: &Column<$K>, t: &Ty, vs: &[V], tz: &str, r: &mut Rng) -> Result<(), String> {
    let n = vs.len(); let what = t.name();
    macro_rules! s { ($rt:ty, $f:expr) => { seq(&what, &|| col.iter::<$rt>().map_err(es), n, &|i: usize, x: &_| $f(x, &vs[i]), r) } }
    macro_rules! prim { ($pt:ty, $bytes:expr) => {{ s!($pt, |x: &&$pt, v: &V| $bytes(**x) == by(v))?; if col.iter::<&[u8]>().is_ok() { return Err(format!("{what} iterated as bytes")); } Ok(()) }} }
    match t {
        Ty::U8 => prim!(u8, |x: u8| x.to_le_bytes().to_vec()), Ty::U16 => prim!(u16, |x: u16| x.to_le_bytes().to_vec()), Ty::U32 => prim!(u32, |x: u32| x.to_le_bytes().to_vec()), Ty::U64 => prim!(u64, |x: u64| x.to_le_bytes().to_vec()), Ty::U128 => prim!(u128, |x: u128| x.to_le_bytes().to_vec()),
        Ty::I8 => prim!(i8, |x: i8| x.to_le_bytes().to_vec()), Ty::I16 => prim!(i16, |x: i16| x.to_le_bytes().to_vec()), Ty::I32 => prim!(i32, |x: i32| x.to_le_bytes().to_vec()), Ty::I64 => prim!(i64, |x: i64| x.to_le_bytes().to_vec()), Ty::I128 => prim!(i128, |x: i128| x.to_le_bytes().to_vec()),
        Ty::F32 => prim!(f32, |x: f32| x.to_bits().to_le_bytes().to_vec()), Ty::F64 => prim!(f64, |x: f64| x.to_bits().to_le_bytes().to_vec()),
        Ty::Str | Ty::FStr(_) => { s!(&[u8], |x: &&[u8], v: &V| *x == by(v))?; if col.iter::<u32>().is_ok() { return Err("strings iterated as u32".into()); } Ok(()) }
        Ty::Date => s!(NaiveDate, |x: &NaiveDate, v: &V| *x == w_date(v)),
        Ty::DateTime(_) | Ty::DateTime64(..) => s!(DateTime<Tz>, |x: &DateTime<Tz>, v: &V| *x == w_dt(t, v, tz)),
        Ty::Ip4 => s!(Ipv4Addr, |x: &Ipv4Addr, v: &V| *x == w_ip4(v)), Ty::Ip6 => s!(Ipv6Addr, |x: &Ipv6Addr, v: &V| *x == w_ip6(v)), Ty::Uuid => s!(Uuid, |x: &Uuid, v: &V| *x == w_uuid(v)),
        Ty::Dec(_, sc) => s!(Decimal, |x: &Decimal, v: &V| { let i: i64 = x.internal(); i == w_dec(t, v) && x.scale() == *sc as usize }),
        Ty::Nul(i) => match **i {
            Ty::U32 => s!(Option<u32>, |x: &Option<&u32>, v: &V| match (x, v) { (None, V::Null) => true, (Some(x), v) if *v != V::Null => x.to_le_bytes() == by(v), _ => false }),
            Ty::Str => s!(Option<&[u8]>, |x: &Option<&[u8]>, v: &V| match (x, v) { (None, V::Null) => true, (Some(x), v) if *v != V::Null => *x == by(v), _ => false }),
            Ty::Date if col.iter::<Option<NaiveDate>>().is_ok() => s!(Option<NaiveDate>, |x: &Option<NaiveDate>, v: &V| match (x, v) { (None, V::Null) => true, (Some(x), v) if *v != V::Null => *x == w_date(v), _ => false }),
            _ => Ok(()),
        },
        Ty::Arr(i) => match **i {
            Ty::U16 => s!(Vec<u16>, |x: &Vec<&u16>, v: &V| if let V::A(a) = v { a.len() == x.len() && x.iter().zip(a).all(|(x, v)| x.to_le_bytes() == by(v)) } else { false }),
            Ty::Str => s!(Vec<&[u8]>, |x: &Vec<&[u8]>, v: &V| if let V::A(a) = v { a.len() == x.len() && x.iter().zip(a).all(|(x, v)| *x == by(v)) } else { false }),
            _ => Ok(()),
        },
        Ty::LC(i) if **i == Ty::Str => s!(&[u8], |x: &&[u8], v: &V| *x == by(v)),
        _ => Ok(()),
    }
} } }
iters!(iter_complex, Complex);
/// every column of a whole result, by iteration
pub fn iterate(b: &CBlock<Complex>, o: &Blk, tz: &str, r: &mut Rng) -> Result<(), String> {
    for (i, (n, t, v)) in o.cols.iter().enumerate() { iter_complex(&b.columns()[i], t, v, tz, r).map_err(|e| format!("fetch_all column {n:?} by iteration: {e}"))?; }
    Ok(())
}
