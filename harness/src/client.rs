//! Driving the real clickhouse-rs client (public API only) against the scripted server.
use crate::oracle::*;
use crate::server::*;
use clickhouse_rs::types::{Block as CBlock, ColumnType, Complex, FromSql, FromSqlResult, Simple, Value, ValueRef};
use clickhouse_rs::{errors::Error, ClientHandle, Pool};
use either::Either;
use futures_util::StreamExt;
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// grabs any cell unchanged
pub struct Raw(pub Value);
impl<'a> FromSql<'a> for Raw { fn from_sql(v: ValueRef<'a>) -> FromSqlResult<Self> { Ok(Raw(v.into())) } }
/// grabs the ValueRef's description (no conversion to Value)
pub struct RawRef(pub V, pub String);

pub fn cell_of(t: &Ty, v: &Value) -> Result<V, String> {
    let n = |b: &[u8]| Ok(V::N(b.to_vec()));
    let bad = || Err(format!("cell {v:?} is not of type {}", t.name()));
    match (t, v) {
        (Ty::Bool, Value::Bool(x)) => n(&[*x as u8]),
        (Ty::U8, Value::UInt8(x)) => n(&x.to_le_bytes()), (Ty::U16, Value::UInt16(x)) => n(&x.to_le_bytes()), (Ty::U32, Value::UInt32(x)) => n(&x.to_le_bytes()),
        (Ty::U64, Value::UInt64(x)) => n(&x.to_le_bytes()), (Ty::U128, Value::UInt128(x)) => n(&x.to_le_bytes()),
        (Ty::I8, Value::Int8(x)) => n(&x.to_le_bytes()), (Ty::I16, Value::Int16(x)) => n(&x.to_le_bytes()), (Ty::I32, Value::Int32(x)) => n(&x.to_le_bytes()),
        (Ty::I64, Value::Int64(x)) => n(&x.to_le_bytes()), (Ty::I128, Value::Int128(x)) => n(&x.to_le_bytes()),
        (Ty::F32, Value::Float32(x)) => n(&x.to_bits().to_le_bytes()), (Ty::F64, Value::Float64(x)) => n(&x.to_bits().to_le_bytes()),
        (Ty::Str, Value::String(s)) | (Ty::FStr(_), Value::String(s)) => Ok(V::S(s.to_vec())),
        (Ty::Date, Value::Date(x)) => n(&x.to_le_bytes()),
        (Ty::DateTime(z), Value::DateTime(x, tz)) => { if let Some(z) = z { if tz.name() != *z { return Err(format!("DateTime cell has zone {} instead of {z}", tz.name())); } } n(&x.to_le_bytes()) }
        (Ty::DateTime64(p, z), Value::DateTime64(x, (pp, tz))) => {
            if p != pp { return Err(format!("DateTime64 cell has precision {pp} instead of {p}")); }
            if let Some(z) = z { if tz.name() != *z { return Err(format!("DateTime64 cell has zone {} instead of {z}", tz.name())); } }
            n(&x.to_le_bytes())
        }
        (Ty::Ip4, Value::Ipv4(b)) => n(b), (Ty::Ip6, Value::Ipv6(b)) => n(b), (Ty::Uuid, Value::Uuid(b)) => n(b),
        (Ty::Dec(_, s), Value::Decimal(d)) => {
            if d.scale() != *s as usize { return Err(format!("decimal cell has scale {} instead of {s}", d.scale())); }
            let x: i64 = d.internal();
            let w = t.width().unwrap();
            if w == 4 && x != (x as i32) as i64 { return Err(format!("decimal cell {x} does not fit 32 bits")); }
            n(&x.to_le_bytes()[..w])
        }
        (Ty::E8(d), Value::Enum8(dd, e)) => { if d != dd { return Err(format!("enum dictionary {dd:?} instead of {d:?}")); } n(&e.internal().to_le_bytes()) }
        (Ty::E16(d), Value::Enum16(dd, e)) => { if d != dd { return Err(format!("enum dictionary {dd:?} instead of {d:?}")); } n(&e.internal().to_le_bytes()) }
        (Ty::Nul(_), Value::Nullable(Either::Left(_))) => Ok(V::Null),
        (Ty::Nul(i), Value::Nullable(Either::Right(x))) => cell_of(i, x),
        (Ty::Arr(i), Value::Array(_, xs)) => Ok(V::A(xs.iter().map(|x| cell_of(i, x)).collect::<Result<_, _>>()?)),
        (Ty::Map(k, x), Value::Map(_, _, m)) => {
            let mut o = m.iter().map(|(a, b)| Ok((cell_of(k, a)?, cell_of(x, b)?))).collect::<Result<Vec<_>, String>>()?;
            o.sort(); Ok(V::M(o))
        }
        (Ty::LC(i), _) | (Ty::Saf(_, i), _) => cell_of(i, v),
        _ => bad(),
    }
}
/// maps have no order
pub fn canon(v: &V) -> V {
    match v { V::M(m) => { let mut o: Vec<_> = m.iter().map(|(a, b)| (canon(a), canon(b))).collect(); o.sort(); V::M(o) } V::A(a) => V::A(a.iter().map(canon).collect()), x => x.clone() }
}
pub fn cmp_cells(what: &str, got: &[V], want: &[V]) -> Result<(), String> {
    if got.len() != want.len() { return Err(format!("{what}: {} rows instead of {}", got.len(), want.len())); }
    for (i, (a, b)) in got.iter().zip(want).enumerate() { if canon(a) != canon(b) { return Err(format!("{what}: row {i} is {} instead of {}", show(a), show(b))); } }
    Ok(())
}
pub fn show(v: &V) -> String { let s = format!("{v:?}"); if s.len() > 300 { format!("{}…", s.chars().take(300).collect::<String>()) } else { s } }
pub fn col_of<K: ColumnType>(b: &CBlock<K>, i: usize, t: &Ty) -> Result<Vec<V>, String> {
    (0..b.row_count()).map(|r| { let x: Raw = b.get(r, i).map_err(|e| format!("get({r},{i}): {e}"))?; cell_of(t, &x.0) }).collect()
}
/// a block the client handed out against the oracle's block
pub fn cmp_block<K: ColumnType>(what: &str, b: &CBlock<K>, o: &Blk) -> Result<(), String> {
    if b.column_count() != o.cols.len() { return Err(format!("{what}: {} columns instead of {}", b.column_count(), o.cols.len())); }
    if !o.cols.is_empty() && b.row_count() != o.rows { return Err(format!("{what}: {} rows instead of {}", b.row_count(), o.rows)); }
    for (i, (n, t, v)) in o.cols.iter().enumerate() {
        if b.columns()[i].name() != n { return Err(format!("{what}: column {i} is called {:?} instead of {n:?}", b.columns()[i].name())); }
        cmp_cells(&format!("{what}: column {i} {n:?} {}", t.name()), &col_of(b, i, t)?, v)?;
    }
    Ok(())
}
pub fn concat_blk(bs: &[Blk]) -> Blk {
    let mut o = bs[0].header();
    for b in bs { for (i, c) in b.cols.iter().enumerate() { o.cols[i].2.extend(c.2.iter().cloned()); } o.rows += b.rows; }
    o
}

// ------------------------------------------------------------------ scripted server
#[derive(Clone, Debug)]
pub enum Reply {
    /// answer to a query: bytes, cut where
    Bytes(Vec<u8>, Vec<usize>),
    /// table header, then expect data blocks until an empty one, then these bytes
    Insert { header: Blk, types: Vec<Ty>, pre: Vec<u8>, after: Vec<u8> },
    /// send bytes and close the connection
    BytesThenClose(Vec<u8>),
}
#[derive(Default)]
pub struct Script { pub replies: Mutex<VecDeque<Reply>>, pub log: Mutex<Vec<(usize, Msg)>> }
impl Script {
    pub fn new(r: Vec<Reply>) -> Arc<Script> { Arc::new(Script { replies: Mutex::new(r.into()), log: Mutex::new(vec![]) }) }
    pub fn push(&self, r: Reply) { self.replies.lock().unwrap().push_back(r) }
    pub fn queries(&self) -> Vec<QueryMsg> { self.log.lock().unwrap().iter().filter_map(|x| if let Msg::Query(q) = &x.1 { Some(q.clone()) } else { None }).collect() }
    pub fn datas(&self) -> Vec<(Blk, Vec<String>)> { self.log.lock().unwrap().iter().filter_map(|x| if let Msg::Data { blk, types, .. } = &x.1 { Some((blk.clone(), types.clone())) } else { None }).collect() }
    pub fn hellos(&self) -> Vec<HelloMsg> { self.log.lock().unwrap().iter().filter_map(|x| if let Msg::Hello(q) = &x.1 { Some(q.clone()) } else { None }).collect() }
    pub fn log_add(&self, c: &Conn, m: &Msg) { self.log.lock().unwrap().push((c.index, m.clone())) }
}
fn expect_empty(c: &mut Conn, s: &Script) -> Result<bool, String> {
    match c.recv()? {
        Some(m) => { s.log_add(c, &m); match m { Msg::Data { table, blk, .. } if table.is_empty() && blk.cols.is_empty() && blk.rows == 0 => Ok(true), m => Err(format!("expected the empty data block, got {m:?}")) } }
        None => Ok(false),
    }
}
pub fn serve(s: &Script, c: &mut Conn, old: &[(String, char)]) -> Result<(), String> {
    c.ex.old_settings = old.to_vec();
    match c.recv()? { Some(Msg::Hello(h)) => { s.log_add(c, &Msg::Hello(h)); let b = c.cfg.hello(); c.send(&b) } None => return Ok(()), Some(m) => return Err(format!("expected hello, got {m:?}")) }
    loop {
        let m = match c.recv()? { Some(m) => m, None => return Ok(()) };
        s.log_add(c, &m);
        match m {
            Msg::Ping => c.send(&PONG),
            Msg::Cancel => { c.send(&EOS); }
            Msg::Query(q) => {
                if (q.compression == 1) != c.cfg.compress { return Err(format!("query announces compression {} on a {} connection", q.compression, if c.cfg.compress { "compressed" } else { "plain" })); }
                if !expect_empty(c, s)? { return Ok(()); }
                let r = s.replies.lock().unwrap().pop_front();
                match r {
                    None => c.send(&EOS),
                    Some(Reply::Bytes(b, cuts)) => c.send_cut(&b, &cuts),
                    Some(Reply::BytesThenClose(b)) => { c.send(&b); return Ok(()) }
                    Some(Reply::Insert { header, types, pre, after }) => {
                        let mut h = pre.clone(); h.extend(c.cfg.data(1, &header));
                        c.send(&h);
                        c.ex.types = types;
                        loop {
                            let m = match c.recv()? { Some(m) => m, None => return Ok(()) };
                            s.log_add(c, &m);
                            match m { Msg::Data { blk, .. } => if blk.cols.is_empty() { break }, m => return Err(format!("expected a data block, got {m:?}")) }
                        }
                        c.ex.types = vec![];
                        c.send(&after);
                    }
                }
            }
            m => return Err(format!("unexpected message {m:?}")),
        }
    }
}
pub fn start(cfg: ServerCfg, s: Arc<Script>) -> Server { start_old(cfg, s, vec![]) }
pub fn start_old(cfg: ServerCfg, s: Arc<Script>, old: Vec<(String, char)>) -> Server { Server::start(cfg, move |c| serve(&s, c, &old)) }
pub fn url(port: u16, cfg: &ServerCfg, extra: &str) -> String {
    format!("tcp://127.0.0.1:{port}?compression={}&connection_timeout=5s&ping_timeout=5s&retry_timeout=20ms&send_retries=2&{extra}", if cfg.compress { "lz4" } else { "none" })
}
pub fn pool(port: u16, cfg: &ServerCfg, ping: bool) -> Pool { Pool::new(url(port, cfg, &format!("ping_before_query={ping}&pool_min=1&pool_max=2"))) }
pub const LIMIT: Duration = Duration::from_secs(45);
pub async fn lim<T, F: std::future::Future<Output = Result<T, String>>>(what: &str, f: F) -> Result<T, String> {
    match tokio::time::timeout(LIMIT, f).await { Ok(r) => r, Err(_) => Err(format!("{what}: no answer within {}s", LIMIT.as_secs())) }
}
pub fn es(e: Error) -> String { format!("{e}") }
pub async fn blocks(h: &mut ClientHandle, sql: &str) -> Result<Vec<CBlock<Simple>>, Error> {
    let mut st = h.query(sql).stream_blocks(); let mut o = vec![];
    while let Some(b) = st.next().await { o.push(b?); }
    Ok(o)
}
pub async fn all(h: &mut ClientHandle, sql: &str) -> Result<CBlock<Complex>, Error> { h.query(sql).fetch_all().await }
/// full reply to a SELECT: header, blocks, end of stream
pub fn select_reply(cfg: &ServerCfg, bs: &[Blk]) -> Vec<u8> {
    let mut o = cfg.data(1, &bs[0].header());
    for b in bs { o.extend(cfg.data(1, b)); }
    o.extend(EOS); o
}
/// hand the oracle's blocks to the client and return the client's blocks
pub async fn fetch(cfg: &ServerCfg, bs: &[Blk]) -> Result<Vec<CBlock<Simple>>, String> {
    let s = Script::new(vec![Reply::Bytes(select_reply(cfg, bs), vec![])]);
    let srv = start(cfg.clone(), s.clone());
    let p = pool(srv.port, cfg, false);
    let r = lim("query", async { let mut h = p.get_handle().await.map_err(es)?; blocks(&mut h, "SELECT").await.map_err(es) }).await;
    if let Some(e) = srv.take_errors().pop() { return Err(e); }
    r
}
/// insert a client block; the oracle decodes what arrives as `types`
pub async fn insert(cfg: &ServerCfg, header: &Blk, b: &CBlock<Simple>) -> Result<(Vec<(Blk, Vec<String>)>, QueryMsg), String> {
    let types = header.cols.iter().map(|c| c.1.clone()).collect();
    let s = Script::new(vec![]);
    let n = b.row_count() / 1_048_576 + 1;
    for _ in 0..n { s.push(Reply::Insert { header: header.header(), types: std::clone::Clone::clone(&types), pre: vec![], after: EOS.to_vec() }); }
    let _: &Vec<Ty> = &types;
    let srv = start(cfg.clone(), s.clone());
    let p = pool(srv.port, cfg, false);
    let r = lim("insert", async { let mut h = p.get_handle().await.map_err(es)?; h.insert("tbl", b).await.map_err(es) }).await;
    if let Some(e) = srv.take_errors().pop() { return Err(e); }
    r.map_err(|e| format!("insert failed: {e}"))?;
    let q = s.queries().first().cloned().ok_or("no query seen")?;
    Ok((s.datas().into_iter().filter(|d| !d.0.cols.is_empty()).collect(), q))
}
