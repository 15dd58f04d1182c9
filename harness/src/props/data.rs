//! block / column properties over the wire, both directions
use crate::client::*; use crate::oracle::*; use crate::rng::Rng; use crate::server::*; use crate::Case;
use clickhouse_rs::types::{Block as CBlock, Value};
use tokio::runtime::Runtime;

pub fn cfg(r: &mut Rng) -> ServerCfg { ServerCfg { compress: r.bool(), tz: r.pick(&TZS).to_string(), ..Default::default() } }
pub fn col_name(r: &mut Rng, i: usize) -> String { match r.below(6) { 0 => format!("c{i}"), 1 => format!("{i}"), 2 => format!("col.{i} x"), 3 => format!("колонка{i}"), 4 => format!("{}{i}", "n".repeat(130)), _ => format!("k{i}") } }
pub fn rows(r: &mut Rng) -> usize { match r.below(10) { 0 => 0, 1 => 1, 2 => 2, 3 => 256 + r.usize(3), 4 => 127 + r.usize(4), _ => r.usize(20) } }
pub fn map_key(r: &mut Rng) -> Ty { if r.one_in(3) { return match r.below(8) { 0 => Ty::FStr(1 + r.usize(9)), 1 => { let p = 1 + r.below(18) as u8; Ty::Dec(p, r.below(p as u64 + 1) as u8) } 2 => Ty::DateTime64(r.below(10) as u32, Some(*r.pick(&TZS))), 3 => Ty::Date, 4 => Ty::Uuid, 5 => Ty::Ip6, 6 => gen_enum8(r), _ => gen_enum16(r) }; } r.pick(&[Ty::Str, Ty::U8, Ty::U16, Ty::U32, Ty::U64, Ty::I8, Ty::I16, Ty::I32, Ty::I64]).clone() }
/// any supported type
pub fn gen_ty(r: &mut Rng) -> Ty {
    match r.below(13) {
        0 => Ty::Nul(Box::new(gen_leaf(r))),
        1 => Ty::Arr(Box::new(gen_leaf(r))),
        2 => Ty::Arr(Box::new(Ty::Nul(Box::new(gen_leaf(r))))),
        3 => Ty::Arr(Box::new(Ty::Arr(Box::new(gen_leaf(r))))),
        4 => { let k = map_key(r); Ty::Map(Box::new(k), Box::new(gen_leaf(r))) }
        5 => Ty::LC(Box::new(if r.bool() { Ty::Str } else { Ty::Nul(Box::new(Ty::Str)) })),
        6 => { let f = *r.pick(&["any", "max", "sum"]); let i = gen_leaf(r); let i = match r.below(6) { 0 => Ty::Nul(Box::new(i)), 1 => Ty::Arr(Box::new(i)), 2 => { let k = map_key(r); Ty::Map(Box::new(k), Box::new(i)) } _ => i }; Ty::Saf(f, Box::new(i)) }
        7 => { let (a, b) = (map_key(r), map_key(r)); let i = gen_leaf(r); match r.below(4) { 0 => Ty::Map(Box::new(a), Box::new(Ty::Map(Box::new(b), Box::new(i)))), 1 => Ty::Map(Box::new(a), Box::new(Ty::Arr(Box::new(i)))), 2 => Ty::Arr(Box::new(Ty::Map(Box::new(a), Box::new(i)))), _ => Ty::Map(Box::new(a), Box::new(Ty::Nul(Box::new(i)))) } }
        _ => gen_leaf(r),
    }
}
pub fn gen_blk(r: &mut Rng, tys: Vec<Ty>, n: usize) -> Blk {
    Blk::new(tys.into_iter().enumerate().map(|(i, t)| { let v = (0..n).map(|_| gen_val(r, &t)).collect(); (col_name(r, i), t, v) }).collect())
}
pub fn gen_like(r: &mut Rng, b: &Blk, n: usize) -> Blk { Blk::new(b.cols.iter().map(|(c, t, _)| (c.clone(), t.clone(), (0..n).map(|_| gen_val(r, t)).collect())).collect()) }
pub fn describe(b: &Blk) -> String { format!("{} rows of [{}]", b.rows, b.cols.iter().map(|c| c.1.name()).collect::<Vec<_>>().join("; ")) }
pub fn kind(t: &Ty) -> String { let n = t.name(); n.split(|c: char| c == '\'' || c.is_ascii_digit() && false).next().unwrap().to_string() }
fn shape(b: &Blk) -> String { format!("{}|{}", b.cols.iter().map(|c| { let n = c.1.name(); n.chars().take_while(|c| *c != '\'').collect::<String>() }).collect::<Vec<_>>().join(","), if b.rows > 20 { 21 } else { b.rows }) }

/// server → client equality, then client → server equality of the very same block
pub async fn echo(cfg: &ServerCfg, b: &Blk) -> Result<(), String> {
    let bs = fetch(cfg, std::slice::from_ref(b)).await?;
    if bs.len() != 1 { return Err(format!("{} blocks instead of 1", bs.len())); }
    cmp_block("fetched block", &bs[0], b)?;
    send_back(cfg, b, &bs[0]).await
}
pub fn cmp_sent(ds: &[(Blk, Vec<String>)], b: &Blk) -> Result<(), String> {
    let mut row = 0;
    for (d, tn) in ds {
        if d.cols.len() != b.cols.len() { return Err(format!("sent {} columns instead of {}", d.cols.len(), b.cols.len())); }
        for (i, (n, t, v)) in d.cols.iter().enumerate() {
            if *n != b.cols[i].0 { return Err(format!("sent column {i} under the name {n:?} instead of {:?}", b.cols[i].0)); }
            if !type_name_ok(t, &tn[i]) { return Err(format!("sent column {i} with type {:?}, table has {:?}", tn[i], t.name())); }
            if row + v.len() > b.cols[i].2.len() { return Err(format!("sent more rows than the block has ({})", b.rows)); }
            cmp_cells(&format!("sent column {i} {n:?} {} (from row {row})", t.name()), v, &b.cols[i].2[row..row + v.len()])?;
        }
        row += d.rows;
    }
    if row != b.rows { return Err(format!("sent {row} rows instead of {}", b.rows)); }
    Ok(())
}
/// the type announced must denote the table's type (spacing and DateTime zone spelling are free)
pub fn type_name_ok(t: &Ty, s: &str) -> bool {
    // spaces between tokens do not matter, nor does which of its spellings an unprintable character in quotes has
    let n = |x: &str| {
        let (mut o, mut q, mut it) = (String::new(), false, x.chars());
        while let Some(c) = it.next() {
            if q && c == '\\' { let d = it.next().unwrap_or('\\'); o.extend(match d { 'n' => '\n', 't' => '\t', 'r' => '\r', '0' => '\0', 'b' => '\u{8}', 'f' => '\u{c}', d => d }.escape_default()); }
            else if c == '\'' { q = !q; o.push(c); } else if q { o.extend(c.escape_default()); } else if c != ' ' { o.push(c); }
        }
        o
    };
    let a = n(&t.name()); let b = n(s);
    a == b || (a.contains("DateTime") && b.contains("DateTime"))
}
pub async fn send_back(cfg: &ServerCfg, b: &Blk, cb: &CBlock) -> Result<(), String> {
    let (ds, q) = insert(cfg, b, cb).await?;
    cmp_sent(&ds, b)?;
    let names: Vec<String> = b.cols.iter().map(|c| if c.0.chars().all(|x| x.is_numeric()) { c.0.clone() } else { format!("`{}`", c.0) }).collect();
    let want = format!("INSERT INTO tbl ({}) VALUES", names.join(", "));
    if q.sql != want { return Err(format!("insert statement {:?} instead of {want:?}", q.sql)); }
    Ok(())
}
fn echo_case(c: &mut Case, rt: &Runtime, tys: Vec<Ty>, n: usize) -> Result<(), String> {
    let cf = cfg(&mut c.rng);
    let b = gen_blk(&mut c.rng, tys, n);
    c.tag = format!("{}{}", shape(&b), if cf.compress { "z" } else { "" }); c.desc = describe(&b);
    rt.block_on(echo(&cf, &b))
}
/// more rows than one insert chunk holds, so that the column is saved in parts
pub fn big_echo(c: &mut Case, rt: &Runtime, t: Ty) -> Result<(), String> {
    const CH: usize = 1_048_576;
    let r = &mut c.rng; let cf = ServerCfg { compress: r.bool(), ..Default::default() };
    let n = CH + 1 + r.usize(40); let p: Vec<V> = (0..37).map(|_| gen_val(r, &t)).collect();
    let b = Blk::new(vec![("c".into(), t, (0..n).map(|i| p[(i * 7 + i / 5) % 37].clone()).collect())]);
    c.tag = format!("big{}", kind(&b.cols[0].1)); c.desc = describe(&b);
    rt.block_on(echo(&cf, &b))
}
fn big(n: u64) -> bool { n == 3 || (n > 8 && n % 3000 == 0) }
/// Bool cells sent as arbitrary bytes: a column of valid bools
fn odd_bools(c: &mut Case, rt: &Runtime) -> Result<(), String> {
    let cf = cfg(&mut c.rng); let r = &mut c.rng; let n = 1 + r.usize(20);
    let by: Vec<u8> = (0..n).map(|_| if r.bool() { r.below(2) as u8 } else { r.u64() as u8 }).collect();
    let sent = Blk::new(vec![("b".into(), Ty::Bool, by.iter().map(|x| V::N(vec![*x])).collect())]);
    let want = Blk::new(vec![("b".into(), Ty::Bool, by.iter().map(|x| V::N(vec![(*x != 0) as u8])).collect())]);
    c.tag = format!("bools{n}"); c.desc = format!("Bool bytes {by:?}");
    rt.block_on(async {
        let bs = fetch(&cf, &[sent]).await?;
        for (i, b) in bs[0].get_column(0usize).map_err(es)?.iter::<bool>().map_err(es)?.enumerate() {
            let raw = unsafe { *(b as *const bool as *const u8) };
            if raw > 1 { return Err(format!("row {i}: a bool with the representation {raw}")); }
        }
        cmp_block("fetched", &bs[0], &want)?; send_back(&cf, &want, &bs[0]).await
    })
}
pub fn p05(c: &mut Case, rt: &Runtime) -> Result<(), String> {
    if c.rng.one_in(40) { return odd_bools(c, rt); }
    let k = 1 + c.rng.usize(4); let tys = (0..k).map(|_| gen_ty(&mut c.rng)).collect(); let n = rows(&mut c.rng);
    echo_case(c, rt, tys, n)
}
/// inserts: order, chunking, casts of the block to the table's columns
pub fn p07(c: &mut Case, rt: &Runtime) -> Result<(), String> {
    if c.n == 3 || (c.n > 8 && c.n % 400 == 0) {
        // more than one chunk of 1,048,576 rows; several column kinds, one at a time
        const CH: usize = 1_048_576;
        let n = *c.rng.pick(&[CH - 1, CH, CH + 1, CH + 1 + 1000, 2 * CH, 2 * CH + 5]);
        let n = if c.n == 3 { CH + 1 + c.rng.usize(1000) } else { n };
        let cf = ServerCfg { compress: c.rng.bool(), ..Default::default() };
        let k = if c.n == 3 { 100 } else { c.rng.below(7) };
        c.tag = format!("chunk{k}-{}", n / CH); c.desc = format!("insert of {n} rows kind {k}");
        let mut cols: Vec<(String, Ty, Vec<V>)> = vec![("id".into(), Ty::U32, (0..n as u32).map(|i| V::N(i.to_le_bytes().to_vec())).collect())];
        let mut b = CBlock::new().column("id", (0..n as u32).collect::<Vec<_>>());
        if k == 1 || k == 100 { b = b.column("s", (0..n).map(|i| format!("{}", i % 1000)).collect::<Vec<_>>()); cols.push(("s".into(), Ty::Str, (0..n).map(|i| V::S(format!("{}", i % 1000).into_bytes())).collect())); }
        if k == 2 || k == 100 { b = b.column("o", (0..n).map(|i| if i % 3 == 0 { None } else { Some(i as u16) }).collect::<Vec<_>>()); cols.push(("o".into(), Ty::Nul(Box::new(Ty::U16)), (0..n).map(|i| if i % 3 == 0 { V::Null } else { V::N((i as u16).to_le_bytes().to_vec()) }).collect())); }
        if k == 3 || k == 100 { b = b.column("a", (0..n).map(|i| vec![i as u16; i % 3]).collect::<Vec<_>>()); cols.push(("a".into(), Ty::Arr(Box::new(Ty::U16)), (0..n).map(|i| V::A(vec![V::N((i as u16).to_le_bytes().to_vec()); i % 3])).collect())); }
        if k == 4 { b = b.column("t", (0..n).map(|i| chrono::TimeZone::timestamp_opt(&chrono_tz::Tz::UTC, i as i64, 0).unwrap()).collect::<Vec<_>>()); cols.push(("t".into(), Ty::DateTime(None), (0..n).map(|i| V::N((i as u32).to_le_bytes().to_vec())).collect())); }
        if k == 5 { b = b.column("m", (0..n).map(|i| { let mut m = std::collections::HashMap::new(); if i % 2 == 1 { m.insert(i as u32, 1u8); } m }).collect::<Vec<_>>()); cols.push(("m".into(), Ty::Map(Box::new(Ty::U32), Box::new(Ty::U8)), (0..n).map(|i| V::M(if i % 2 == 1 { vec![(V::N((i as u32).to_le_bytes().to_vec()), V::N(vec![1]))] } else { vec![] })).collect())); }
        if k == 6 { b = b.column("l", (0..n).map(|i| format!("{}", i % 7)).collect::<Vec<_>>()); cols.push(("l".into(), Ty::LC(Box::new(Ty::Str)), (0..n).map(|i| V::S(format!("{}", i % 7).into_bytes())).collect())); }
        let o = Blk::new(cols);
        let (ds, _) = rt.block_on(insert_chunks(&cf, &o, &b))?;
        if ds.iter().any(|d| d.0.rows == 0 || d.0.rows > CH) { return Err(format!("chunk sizes {:?}", ds.iter().map(|d| d.0.rows).collect::<Vec<_>>())); }
        return cmp_sent(&ds, &o);
    }
    // small inserts with rows pushed one at a time and with a differing table type
    let n = rows(&mut c.rng).min(40); let cf = cfg(&mut c.rng);
    let pick = c.rng.below(4);
    let r = &mut c.rng;
    let (o, b) = match pick {
        0 => { // strings into every string-like table column
            let vs: Vec<String> = (0..n).map(|_| gen_utf8(r)).collect();
            let k = 1 + r.usize(12);
            let t = match r.below(5) { 0 => Ty::Str, 1 => Ty::LC(Box::new(Ty::Str)), 2 => Ty::LC(Box::new(Ty::Nul(Box::new(Ty::Str)))), 3 => Ty::Nul(Box::new(Ty::Str)), _ => Ty::FStr(k) };
            let want: Vec<V> = vs.iter().map(|s| if let Ty::FStr(k) = t { let mut x = s.as_bytes().to_vec(); x.resize(k, 0); V::S(x) } else { V::S(s.as_bytes().to_vec()) }).collect();
            match t { Ty::Nul(_) => (Blk::new(vec![("s".into(), t, want)]), CBlock::new().column("s", vs.iter().map(|x| Some(x.clone())).collect::<Vec<_>>())),
                Ty::FStr(k) => { let vs2: Vec<String> = vs.iter().map(|s| { let mut e = s.len().min(k); while !s.is_char_boundary(e) { e -= 1; } s[..e].to_string() }).collect();
                    let want = vs2.iter().map(|s| { let mut x = s.as_bytes().to_vec(); x.resize(k, 0); V::S(x) }).collect();
                    (Blk::new(vec![("s".into(), t, want)]), CBlock::new().column("s", vs2)) }
                _ => (Blk::new(vec![("s".into(), t, want)]), CBlock::new().column("s", vs)) }
        }
        1 => { // rows pushed one by one
            let tys: Vec<Ty> = (0..1 + r.usize(3)).map(|_| r.pick(&[Ty::U8, Ty::U64, Ty::I32, Ty::F64, Ty::Str, Ty::Uuid, Ty::Nul(Box::new(Ty::I16)), Ty::Arr(Box::new(Ty::U32)), Ty::Date]).clone()).collect();
            let o = Blk::new(tys.into_iter().enumerate().map(|(i, t)| { let v = (0..n.max(1)).map(|_| gen_val(r, &t)).collect(); (format!("c{i}"), t, v) }).collect());
            let mut b = CBlock::new();
            for i in 0..o.rows { let row: Vec<(String, Value)> = o.cols.iter().map(|(nm, t, v)| (nm.clone(), to_value(t, &v[i]))).collect(); b.push(row).map_err(es)?; }
            (o, b)
        }
        2 => { // dates
            use chrono::TimeZone;
            let secs: Vec<u32> = (0..n).map(|_| if r.bool() { r.u64() as u32 } else { r.below(2_000_000_000) as u32 }).collect();
            let tz: chrono_tz::Tz = r.pick(&TZS).parse().unwrap();
            let v: Vec<_> = secs.iter().map(|s| tz.timestamp_opt(*s as i64, 0).unwrap()).collect();
            let p = r.below(10) as u32;
            if r.bool() || p > 9 { (Blk::new(vec![("t".into(), Ty::DateTime(None), secs.iter().map(|s| V::N(s.to_le_bytes().to_vec())).collect())]), CBlock::new().column("t", v)) }
            else { let p = p.min(8); (Blk::new(vec![("t".into(), Ty::DateTime64(p, Some("UTC")), secs.iter().map(|s| V::N((*s as i64 * 10i64.pow(p)).to_le_bytes().to_vec())).collect())]), CBlock::new().column("t", v)) }
        }
        _ => { let k = 1 + r.usize(3); let tys = (0..k).map(|_| gen_leaf(r)).collect(); let o = gen_blk(r, tys, n.max(1)); c.tag = "echo".into(); c.desc = describe(&o); return rt.block_on(echo(&cf, &o)); }
    };
    c.tag = format!("{pick}{}", shape(&o)); c.desc = describe(&o);
    // the table may name its columns differently (the block's own names are sent)
    let mut hd = o.header();
    if r.one_in(3) { for (i, x) in hd.cols.iter_mut().enumerate() { if r.bool() { x.0 = format!("t.{}{i}", x.0); } } c.desc += " into a table with other column names"; }
    let (ds, _) = rt.block_on(insert(&cf, &hd, &b))?;
    cmp_sent(&ds, &o)?;
    if r.one_in(4) && o.rows > 0 {
        // a table with another number of columns: refused, nothing sent
        let mut hd = o.header(); if r.bool() { hd.cols.push(("extra".into(), Ty::U8, vec![])); } else { hd.cols.insert(0, ("extra".into(), Ty::U8, vec![])); }
        c.desc += " into a table with one more column";
        if let Ok((ds, _)) = rt.block_on(insert(&cf, &hd, &b)) { return Err(format!("a block of {} columns was inserted into a table of {} ({} data blocks)", o.cols.len(), hd.cols.len(), ds.len())); }
    }
    Ok(())
}
async fn insert_chunks(cf: &ServerCfg, o: &Blk, b: &CBlock) -> Result<(Vec<(Blk, Vec<String>)>, QueryMsg), String> { insert(cf, &o.header(), b).await }
/// a client value for the wire bytes of a simple cell
pub fn to_value(t: &Ty, v: &V) -> Value {
    macro_rules! le { ($t:ty, $b:expr) => { <$t>::from_le_bytes($b.as_slice().try_into().unwrap()) } }
    match (t, v) {
        (Ty::Bool, V::N(b)) => Value::Bool(b[0] == 1),
        (Ty::U8, V::N(b)) => Value::UInt8(b[0]), (Ty::U16, V::N(b)) => Value::UInt16(le!(u16, b)), (Ty::U32, V::N(b)) => Value::UInt32(le!(u32, b)), (Ty::U64, V::N(b)) => Value::UInt64(le!(u64, b)), (Ty::U128, V::N(b)) => Value::UInt128(le!(u128, b)),
        (Ty::I8, V::N(b)) => Value::Int8(b[0] as i8), (Ty::I16, V::N(b)) => Value::Int16(le!(i16, b)), (Ty::I32, V::N(b)) => Value::Int32(le!(i32, b)), (Ty::I64, V::N(b)) => Value::Int64(le!(i64, b)), (Ty::I128, V::N(b)) => Value::Int128(le!(i128, b)),
        (Ty::F32, V::N(b)) => Value::Float32(f32::from_bits(le!(u32, b))), (Ty::F64, V::N(b)) => Value::Float64(f64::from_bits(le!(u64, b))),
        (Ty::Str, V::S(s)) => Value::from(s.clone()), (Ty::Date, V::N(b)) => Value::Date(le!(u16, b)),
        (Ty::Uuid, V::N(b)) => Value::Uuid(b.as_slice().try_into().unwrap()), (Ty::Ip4, V::N(b)) => Value::Ipv4(b.as_slice().try_into().unwrap()), (Ty::Ip6, V::N(b)) => Value::Ipv6(b.as_slice().try_into().unwrap()),
        (Ty::Nul(i), V::Null) => match **i { Ty::I16 => Value::from(None::<i16>), Ty::Str => Value::from(None::<String>), Ty::U8 => Value::from(None::<u8>), Ty::F64 => Value::from(None::<f64>), _ => panic!("harness: null of {}", t.name()) },
        (Ty::Nul(i), x) => Value::Nullable(either::Either::Right(Box::new(to_value(i, x)))),
        (Ty::Arr(i), V::A(a)) => match **i { Ty::U32 => Value::from(a.iter().map(|x| if let V::N(b) = x { le!(u32, b) } else { panic!() }).collect::<Vec<u32>>()), Ty::Str => Value::from(a.iter().map(|x| if let V::S(b) = x { String::from_utf8(b.clone()).unwrap() } else { panic!() }).collect::<Vec<String>>()), _ => panic!("harness: array of {}", i.name()) },
        _ => panic!("harness: to_value {}", t.name()),
    }
}
/// string columns
pub fn p08(c: &mut Case, rt: &Runtime) -> Result<(), String> {
    if big(c.n) { return big_echo(c, rt, Ty::Str); }
    let n = match c.rng.below(6) { 0 => 0, 1 => 300, _ => c.rng.usize(40) };
    let cf = cfg(&mut c.rng); let r = &mut c.rng;
    // lengths around the pool's chunk capacities
    let huge = r.one_in(4); let n = if huge { n.min(6) } else { n };
    let vs: Vec<Vec<u8>> = (0..n).map(|_| match r.below(6) { 0 => vec![], 1 if huge => { let e = 13 + r.below(9); let k = (1usize << e) - 2 + r.usize(5); (0..k).map(|i| (i * 7 + i / 251) as u8).collect() } 1 => { let k = r.usize(5000); r.bytes(k) } 2 => { let k = 100 + r.usize(200); r.bytes(k) } _ => gen_bytes(r) }).collect();
    let o = Blk::new(vec![("s".into(), Ty::Str, vs.iter().map(|x| V::S(x.clone())).collect())]);
    c.tag = format!("{n}/{}", vs.iter().map(|x| x.len()).max().unwrap_or(0)); c.desc = format!("lengths {:?}", vs.iter().map(|x| x.len()).collect::<Vec<_>>());
    rt.block_on(async {
        let bs = fetch(&cf, &[o.clone()]).await?; cmp_block("fetched", &bs[0], &o)?; send_back(&cf, &o, &bs[0]).await?;
        let by: Vec<&[u8]> = bs[0].get_column(0usize).map_err(es)?.iter::<&[u8]>().map_err(es)?.collect();
        if by.len() != n || by.iter().zip(&vs).any(|(a, b)| *a != &b[..]) { return Err("iterating the string column gives other strings".into()); }
        let b = CBlock::new().column("s", vs.iter().map(|x| &x[..]).collect::<Vec<&[u8]>>());
        cmp_block("built", &b, &o)?; send_back(&cf, &o, &b).await?;
        let mut p = CBlock::with_capacity(1 + n % 3);
        for v in &vs { p.push(vec![("s".to_string(), Value::from(v.clone()))]).map_err(es)?; }
        if n > 0 { cmp_block("pushed", &p, &o)?; }
        Ok(())
    })
}
pub fn p09(c: &mut Case, rt: &Runtime) -> Result<(), String> {
    let r = &mut c.rng;
    let t = match r.below(5) { 0 => Ty::Arr(Box::new(gen_leaf(r))), 1 => Ty::Arr(Box::new(Ty::Arr(Box::new(gen_leaf(r))))), 2 => Ty::Arr(Box::new(Ty::Nul(Box::new(gen_leaf(r))))), 3 => { let k = map_key(r); Ty::Map(Box::new(k), Box::new(Ty::Arr(Box::new(gen_leaf(r))))) } _ => { let k = map_key(r); Ty::Map(Box::new(k), Box::new(gen_leaf(r))) } };
    if big(c.n) { return big_echo(c, rt, if c.n == 3 { Ty::Map(Box::new(Ty::U16), Box::new(Ty::Arr(Box::new(Ty::U8)))) } else { t }); }
    if c.n == 4 { return big_echo(c, rt, Ty::Arr(Box::new(Ty::Nul(Box::new(Ty::U16))))); }
    if c.rng.one_in(12) { return bad_offsets(c, rt); }
    let n = rows(&mut c.rng);
    if c.rng.one_in(3) { return slices_case(c, rt, vec![t], n.min(30)); }
    echo_case(c, rt, vec![t, Ty::U8], n)
}
/// offsets that decrease
fn bad_offsets(c: &mut Case, rt: &Runtime) -> Result<(), String> {
    let r = &mut c.rng; let cf = ServerCfg { compress: r.bool(), ..Default::default() };
    let map = r.bool(); let n = 2 + r.usize(8);
    let t = if map { Ty::Map(Box::new(Ty::U8), Box::new(Ty::U8)) } else { Ty::Arr(Box::new(Ty::U8)) };
    let lens: Vec<usize> = (0..n).map(|_| r.usize(4)).collect(); let total: usize = lens.iter().sum();
    let b = Blk::new(vec![("c".into(), t, lens.iter().map(|k| if map { V::M((0..*k).map(|i| (V::N(vec![i as u8]), V::N(vec![7]))).collect()) } else { V::A((0..*k).map(|i| V::N(vec![i as u8])).collect()) }).collect())]);
    let mut raw = b.raw(); let at = raw.len() - total * (1 + map as usize) - 8 * n;
    let i = r.usize(n - 1); let v = total as u64 + 1 + r.below(300);
    let v = if i == 0 || r.bool() || lens[..i].iter().sum::<usize>() == 0 { v } else { lens[..i].iter().sum::<usize>() as u64 - 1 };
    raw[at + 8 * i..at + 8 * i + 8].copy_from_slice(&v.to_le_bytes());
    c.tag = format!("bad{map}/{n}/{i}"); c.desc = format!("{} rows of lengths {lens:?} whose offset {i} is {v}", b.cols[0].1.name());
    let mut w = W::new(); w.uv(1).str(""); if cf.compress { w.raw(&frame(&raw)); } else { w.raw(&raw); }
    let mut out = cf.data(1, &b.header()); out.extend(w.0); out.extend(EOS);
    refused(rt, &cf, out)
}
fn refused(rt: &Runtime, cf: &ServerCfg, out: Vec<u8>) -> Result<(), String> {
    rt.block_on(async {
        let srv = start(cf.clone(), Script::new(vec![Reply::BytesThenClose(out)])); let p = pool(srv.port, cf, false);
        lim("query", async { let mut h = p.get_handle().await.map_err(es)?; match blocks(&mut h, "S").await { Err(_) => Ok(()), Ok(b) => Err(format!("inconsistent column accepted ({} blocks)", b.len())) } }).await
    })
}
pub fn p10(c: &mut Case, rt: &Runtime) -> Result<(), String> {
    if big(c.n) || c.n == 4 { let t = if c.n == 3 { Ty::Str } else { gen_leaf(&mut c.rng) }; return big_echo(c, rt, Ty::Nul(Box::new(t))); }
    let t = gen_leaf(&mut c.rng); let n = rows(&mut c.rng);
    echo_case(c, rt, vec![Ty::Nul(Box::new(t)), Ty::U16], n)
}
pub fn p11(c: &mut Case, rt: &Runtime) -> Result<(), String> {
    let r = &mut c.rng; let cf = cfg(r);
    let nul = r.bool(); let lct = |i: &Ty| Ty::LC(Box::new(if nul { Ty::Nul(Box::new(i.clone())) } else { i.clone() }));
    if big(c.n) { let t = lct(&Ty::Str); return big_echo(c, rt, t); }
    if r.one_in(12) { // an index outside of the dictionary
        let n = 1 + r.usize(20); let b = Blk::new(vec![("c".into(), lct(&Ty::Str), (0..n).map(|i| V::S(vec![b'a' + (i % 5) as u8])).collect())]);
        let cf = ServerCfg { compress: r.bool(), ..Default::default() };
        let mut raw = b.raw(); let l = raw.len(); let k = r.usize(n); let v = 8 + r.below(248) as u8; raw[l - n + k] = v;
        c.tag = format!("bad{n}/{nul}"); c.desc = format!("{n} rows over 5 keys, index {k} is {v}");
        let mut w = W::new(); w.uv(1).str(""); if cf.compress { w.raw(&frame(&raw)); } else { w.raw(&raw); }
        let mut out = cf.data(1, &b.header()); out.extend(w.0); out.extend(EOS);
        return refused(rt, &cf, out);
    }
    if r.one_in(4) { // other inner types
        let k = 1 + r.usize(6); let i = r.pick(&[Ty::U8, Ty::U16, Ty::U32, Ty::U64, Ty::I8, Ty::I32, Ty::I64, Ty::Date, Ty::DateTime(None), Ty::FStr(k), Ty::F64]).clone(); let n = rows(r);
        let p: Vec<V> = (0..1 + r.usize(300)).map(|_| gen_val(r, &i)).collect();
        let vs = (0..n).map(|_| if nul && r.one_in(4) { V::Null } else { r.pick(&p).clone() }).collect();
        let o = Blk::new(vec![("l".into(), lct(&i), vs)]); c.tag = format!("{}/{n}", o.cols[0].1.name()); c.desc = describe(&o);
        return rt.block_on(echo(&cf, &o));
    }
    let t = lct(&Ty::Str);
    let n = match r.below(8) { 0 => 0, 1 => 1, 2 => 254 + r.usize(6), 3 => 700, 4 if r.one_in(10) => 66_000, _ => r.usize(50) };
    let d = match r.below(4) { 0 => 1 + r.usize(3), 1 => 253 + r.usize(6), 2 => n.max(1), _ => 1 + r.usize(40) };
    let dict: Vec<V> = (0..d).map(|i| V::S(if r.one_in(8) { vec![] } else { format!("v{i}{}", "x".repeat(r.usize(4))).into_bytes() })).collect();
    let all = r.one_in(3);
    let vs: Vec<V> = (0..n).map(|i| if nul && r.one_in(5) { V::Null } else if all { dict[i % d].clone() } else { r.pick(&dict).clone() }).collect();
    let col = |vs: &[V]| Blk::new(vec![("l".into(), t.clone(), vs.to_vec()), ("i".into(), Ty::U32, (0..vs.len() as u32).map(|x| V::N(x.to_le_bytes().to_vec())).collect())]);
    let o = col(&vs);
    let m = if r.one_in(3) { 1 + r.usize(300) } else { 0 }; // rows pushed into the received column
    let more: Vec<V> = (0..m).map(|k| if nul && r.one_in(5) { V::Null } else if r.bool() { V::S(format!("n{k}").into_bytes()) } else { r.pick(&dict).clone() }).collect();
    c.tag = format!("{n}/{d}/{nul}/{m}"); c.desc = format!("{} rows, dictionary {d}, {}, then {m} rows pushed", n, t.name());
    rt.block_on(async {
        echo(&cf, &o).await?;
        // from plain strings
        if !nul {
            let b = CBlock::new().column("l", vs.iter().map(|v| if let V::S(s) = v { String::from_utf8(s.clone()).unwrap() } else { panic!() }).collect::<Vec<String>>()).column("i", (0..n as u32).collect::<Vec<_>>());
            let (ds, _) = insert(&cf, &o, &b).await?; cmp_sent(&ds, &o)?;
        }
        if m > 0 {
            let mut b = fetch(&cf, &[o.clone()]).await?.remove(0); let keep = b.clone();
            for (k, v) in more.iter().enumerate() {
                let x = match v { V::S(s) if !nul => Value::from(s.clone()), V::S(s) => Value::from(Some(String::from_utf8(s.clone()).unwrap())), _ => Value::from(None::<String>) };
                b.push(vec![("l".to_string(), x), ("i".to_string(), Value::UInt32((n + k) as u32))]).map_err(es)?;
            }
            let o2 = col(&[vs.clone(), more.clone()].concat());
            cmp_block("after pushes", &b, &o2)?; cmp_block("copy taken before", &keep, &o)?; send_back(&cf, &o2, &b).await?;
        }
        Ok(())
    })
}
/// several blocks of one result: fetch_all, rows, stream
pub fn slices_case(c: &mut Case, rt: &Runtime, tys: Vec<Ty>, n0: usize) -> Result<(), String> {
    let cf = cfg(&mut c.rng); let r = &mut c.rng;
    let first = gen_blk(r, tys, n0);
    let k = 1 + r.usize(5); let mut bs = vec![first];
    for _ in 1..k { let n = match r.below(5) { 0 => 0, 1 => 1, _ => r.usize(20) }; let b = gen_like(r, &bs[0], n); bs.push(b); }
    let sum = concat_blk(&bs);
    c.tag = format!("{}/{:?}", shape(&bs[0]), bs.iter().map(|b| b.rows.min(3)).collect::<Vec<_>>()); c.desc = format!("{} in blocks of {:?} rows", describe(&sum), bs.iter().map(|b| b.rows).collect::<Vec<_>>());
    let rep = select_reply(&cf, &bs); let mut r2 = Rng::new(r.u64());
    rt.block_on(async {
        let s = Script::new(vec![Reply::Bytes(rep.clone(), vec![]), Reply::Bytes(rep.clone(), vec![]), Reply::Bytes(rep, vec![])]);
        let srv = start(cf.clone(), s.clone()); let p = pool(srv.port, &cf, false);
        let r = lim("query", async {
            let mut h = p.get_handle().await.map_err(es)?;
            let b = all(&mut h, "SELECT").await.map_err(es)?;
            cmp_block("fetch_all", &b, &sum)?;
            super::typed::iterate(&b, &sum, &cf.tz, &mut r2)?;
            // the columns of the concatenated block, inserted again
            let mut cb = CBlock::new();
            for (k, (nm, _, _)) in sum.cols.iter().enumerate() { cb = cb.column(nm, b.get_column(k).map_err(es)?.clone()); }
            if sum.rows > 0 { send_back(&cf, &sum, &cb).await.map_err(|e| format!("concatenated columns inserted: {e}"))?; }
            let mut i = 0;
            for row in b.rows() {
                for (k, (nm, t, v)) in sum.cols.iter().enumerate() {
                    if row.name(k).map_err(es)? != nm { return Err(format!("row name {:?}", row.name(k))); }
                    let x: Raw = row.get(nm.as_str()).map_err(es)?; if canon(&cell_of(t, &x.0)?) != canon(&v[i]) { return Err(format!("row {i} by name {nm:?}: {:?} instead of {}", x.0, show(&v[i]))); }
                }
                i += 1;
            }
            if i != sum.rows { return Err(format!("rows() gave {i} rows instead of {}", sum.rows)); }
            let bl = blocks(&mut h, "SELECT").await.map_err(es)?;
            if bl.len() != bs.len() { return Err(format!("{} blocks instead of {}", bl.len(), bs.len())); }
            for (a, b) in bl.iter().zip(&bs) { cmp_block("stream_blocks", a, b)?; }
            use futures_util::StreamExt;
            let mut st = h.query("SELECT").stream(); let mut i = 0;
            while let Some(row) = st.next().await {
                let row = row.map_err(es)?;
                if i >= sum.rows { return Err("stream() gave too many rows".into()); }
                for (k, (_, t, v)) in sum.cols.iter().enumerate() { let x: Raw = row.get(k).map_err(es)?; if canon(&cell_of(t, &x.0)?) != canon(&v[i]) { return Err(format!("stream row {i} column {k}: {:?} instead of {}", x.0, show(&v[i]))); } }
                i += 1;
            }
            if i != sum.rows { return Err(format!("stream() gave {i} rows instead of {}", sum.rows)); }
            Ok(())
        }).await;
        if let Some(e) = srv.take_errors().pop() { return Err(e); }
        r
    })
}
pub fn p12(c: &mut Case, rt: &Runtime) -> Result<(), String> {
    let k = 1 + c.rng.usize(3); let tys = (0..k).map(|_| gen_ty(&mut c.rng)).collect(); let n = rows(&mut c.rng).min(40);
    slices_case(c, rt, tys, n)
}
/// FixedString
pub fn p15(c: &mut Case, rt: &Runtime) -> Result<(), String> {
    let cf = cfg(&mut c.rng); let r = &mut c.rng;
    let k = 1 + r.usize(20); let n = rows(r).min(60);
    if big(c.n) || c.n == 4 { let t = if c.n == 4 { Ty::Nul(Box::new(Ty::FStr(3))) } else { Ty::FStr(2) }; return big_echo(c, rt, t); }
    if r.bool() { let tys = vec![Ty::FStr(k), Ty::Nul(Box::new(Ty::FStr(k)))]; let o = gen_blk(r, tys, n); c.tag = format!("echo{k}/{n}"); c.desc = describe(&o); return rt.block_on(echo(&cf, &o)); }
    let vs: Vec<Vec<u8>> = (0..n).map(|_| { let l = match r.below(4) { 0 => k, 1 => 0, _ => r.usize(k + 1) }; (0..l).map(|_| b'a' + r.below(26) as u8).collect() }).collect();
    let pad = |v: &Vec<u8>| { let mut x = v.clone(); x.resize(k, 0); V::S(x) };
    let nul = r.bool();
    if r.one_in(4) && n > 0 { // strings that are too long: refused or cut, never shifting other rows
        let long: Vec<usize> = (0..1 + r.usize(2)).map(|_| r.usize(n)).collect(); let mut vs = vs.clone();
        for i in &long { let e = k + 1 + r.usize(9); vs[*i] = (0..e).map(|_| b'A' + r.below(26) as u8).collect(); }
        c.tag = format!("long{k}/{n}/{nul}"); c.desc = format!("FixedString({k}) from {:?}", vs.iter().map(|v| v.len()).collect::<Vec<_>>());
        let ty = if nul { Ty::Nul(Box::new(Ty::FStr(k))) } else { Ty::FStr(k) };
        let o = Blk::new(vec![("f".into(), ty, vs.iter().map(pad).collect())]);
        let b = if nul { CBlock::new().column("f", vs.iter().map(|v| Some(v.clone())).collect::<Vec<Option<Vec<u8>>>>()) } else { CBlock::new().column("f", vs.iter().map(|v| &v[..]).collect::<Vec<&[u8]>>()) };
        return match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt.block_on(insert(&cf, &o, &b)))) { Ok(Ok((ds, _))) => cmp_sent(&ds, &o), Ok(Err(e)) if e.starts_with("client sent an invalid") || e.contains("no answer") => Err(e), _ => Ok(()) };
    }
    c.tag = format!("pad{k}/{n}/{nul}"); c.desc = format!("FixedString({k}) from {:?}", vs.iter().map(|v| v.len()).collect::<Vec<_>>());
    let (o, b) = if nul {
        let f: Vec<bool> = (0..n).map(|_| r.bool()).collect();
        (Blk::new(vec![("f".into(), Ty::Nul(Box::new(Ty::FStr(k))), vs.iter().zip(&f).map(|(v, x)| if *x { V::Null } else { pad(v) }).collect())]), CBlock::new().column("f", vs.iter().zip(&f).map(|(v, x)| if *x { None } else { Some(v.clone()) }).collect::<Vec<Option<Vec<u8>>>>()))
    } else { (Blk::new(vec![("f".into(), Ty::FStr(k), vs.iter().map(pad).collect())]), CBlock::new().column("f", vs.iter().map(|v| &v[..]).collect::<Vec<&[u8]>>())) };
    let (ds, _) = rt.block_on(insert(&cf, &o, &b))?; cmp_sent(&ds, &o)
}
