//! connections, pool, retries
use super::data::*; use crate::client::*; use crate::oracle::*; use crate::rng::Rng; use crate::server::*; use crate::Case;
use clickhouse_rs::{errors::Error, types::Block as CBlock, ClientHandle, Pool};
use futures_util::StreamExt;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Duration;
use tokio::runtime::Runtime;

fn simple_blk(r: &mut Rng, id: u32) -> Blk { let n = 1 + r.usize(4); let t = gen_leaf(r); let mut b = gen_blk(r, vec![t], n); b.cols.insert(0, ("id".into(), Ty::U32, vec![V::N(id.to_le_bytes().to_vec()); n])); b }
fn pool_num(p: &Pool, what: &str) -> Option<usize> { let s = format!("{p:?}"); let i = s.find(what)? + what.len(); s[i..].trim_start_matches([':', ' ']).chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok() }

/// pool: never more handles than max, no handle or slot lost, hosts in turn
pub fn p18(c: &mut Case, rt: &Runtime) -> Result<(), String> {
    let r = &mut c.rng;
    if r.one_in(3) {
        // hosts in turn
        let k = 1 + r.usize(3); let m = 1 + r.usize(7);
        c.tag = format!("hosts{k}/{m}"); c.desc = format!("{m} connections over {k} hosts");
        let srv: Vec<Server> = (0..k).map(|_| start(ServerCfg::default(), Script::new(vec![]))).collect();
        let alt = srv[1..].iter().map(|s| format!("127.0.0.1:{}", s.port)).collect::<Vec<_>>().join(",");
        let u = url(srv[0].port, &ServerCfg::default(), &format!("ping_before_query=false&pool_min={m}&pool_max={m}{}", if k > 1 { format!("&alt_hosts={alt}") } else { String::new() }));
        return rt.block_on(lim("get_handle", async {
            let p = Pool::new(u); let mut hs = vec![];
            for _ in 0..m { let mut h = p.get_handle().await.map_err(es)?; h.ping().await.map_err(es)?; hs.push(h); }
            for (i, s) in srv.iter().enumerate() { let got = s.conns.load(SeqCst); let want = m / k + (i < m % k) as usize; if got != want { return Err(format!("host {i} of {k} got {got} of {m} connections instead of {want}")); } }
            Ok(())
        }));
    }
    let max = 1 + r.usize(4); let min = 1 + r.usize(max); let tasks = 1 + r.usize(9); let ping = r.bool();
    let fail_hello = r.one_in(4);
    c.tag = format!("{min}/{max}/{tasks}/{ping}/{fail_hello}"); c.desc = format!("pool {min}..{max}, {tasks} tasks, ping_before_query={ping}{}", if fail_hello { ", some connections fail" } else { "" });
    let cf = ServerCfg::default();
    let refuse = Arc::new(AtomicUsize::new(if fail_hello { 1 + r.usize(3) } else { 0 })); let rf = refuse.clone();
    let s = Script::new(vec![]);
    let srv = Server::start(cf.clone(), move |c| { if rf.fetch_update(SeqCst, SeqCst, |x| if x > 0 { Some(x - 1) } else { None }).is_ok() { return Ok(()); } serve_sql(c) });
    let _ = s;
    let p = Pool::new(url(srv.port, &cf, &format!("ping_before_query={ping}&pool_min={min}&pool_max={max}")));
    let live = Arc::new(AtomicUsize::new(0)); let peak = Arc::new(AtomicUsize::new(0));
    let seeds: Vec<u64> = (0..tasks).map(|_| r.u64()).collect();
    let res = rt.block_on(lim("tasks", async {
        let mut js = vec![];
        for sd in seeds {
            let (p, live, peak) = (p.clone(), live.clone(), peak.clone());
            js.push(async move {
                let mut r = Rng::new(sd);
                for _ in 0..1 + r.usize(4) {
                    let mut h = match p.get_handle().await { Ok(h) => h, Err(_) => { continue } };
                    let l = live.fetch_add(1, SeqCst) + 1; peak.fetch_max(l, SeqCst);
                    let o = match r.below(6) {
                        0 => h.execute("ok").await.map(|_| ()).map_err(es),
                        1 => match h.execute("exc").await { Err(Error::Server(_)) => Ok(()), x => Err(format!("exception gave {:?}", x.map_err(es))) },
                        2 => match blocks(&mut h, "exc").await { Err(Error::Server(_)) => Ok(()), x => Err(format!("exception gave {:?}", x.map(|b| b.len()).map_err(es))) },
                        3 => { let mut st = h.query("two").stream_blocks(); let a = st.next().await; drop(st); match a { Some(Ok(_)) => Ok(()), x => Err(format!("first block: {:?}", x.map(|y| y.map(|b| b.row_count()).map_err(es)))) } }
                        4 => { let _ = blocks(&mut h, "close").await; Ok(()) }
                        _ => match blocks(&mut h, "two").await { Ok(b) if b.len() == 2 => Ok(()), x => Err(format!("query gave {:?}", x.map(|b| b.len()).map_err(es))) },
                    };
                    if r.bool() { tokio::task::yield_now().await; }
                    live.fetch_sub(1, SeqCst); drop(h);
                    o?;
                }
                Ok::<(), String>(())
            });
        }
        for x in futures_util::future::join_all(js).await { x?; }
        Ok(())
    }));
    if let Some(e) = srv.take_errors().pop() { return Err(e); } res?;
    if peak.load(SeqCst) > max { return Err(format!("{} handles in use at once, maximum {max}", peak.load(SeqCst))); }
    if let Some(n) = pool_num(&p, "ongoing connections count") { if n != 0 { return Err(format!("all handles are back but the pool counts {n} in use")); } }
    if let Some(n) = pool_num(&p, "idle connections count") { if n > min { return Err(format!("{n} idle connections kept, minimum {min}")); } }
    // the pool still hands out max handles
    refuse.store(0, SeqCst);
    rt.block_on(lim("handles after the run", async { let mut hs = vec![]; for _ in 0..max { hs.push(p.get_handle().await.map_err(es)?); }
        for h in &mut hs { let b = blocks(h, "two").await.map_err(|e| format!("handle taken later fails: {e}"))?; if b.len() != 2 { return Err("stale answer".into()); } } Ok(()) }))
}
fn two(cf: &ServerCfg) -> Vec<u8> { let b = |x: u32| Blk::new(vec![("id".into(), Ty::U32, vec![V::N(x.to_le_bytes().to_vec())])]); select_reply(cf, &[b(1), b(2)]) }
/// a server answering by the query text
fn serve_sql(c: &mut Conn) -> Result<(), String> {
    if greet(c)?.is_none() { return Ok(()); }
    loop {
        match c.recv()? {
            None => return Ok(()), Some(Msg::Ping) => c.send(&PONG), Some(Msg::Cancel) | Some(Msg::Data { .. }) => {}
            Some(Msg::Query(q)) => { c.recv()?; match q.sql.as_str() { "exc" => c.send(&exception(1, "E", "m", "s")), "close" => return Ok(()), "two" => { let b = two(&c.cfg.clone()); c.send(&b) } _ => c.send(&EOS) } }
            Some(m) => return Err(format!("unexpected {m:?}")),
        }
    }
}
/// retries are bounded by the option and used up to it
pub fn p19(c: &mut Case, rt: &Runtime) -> Result<(), String> {
    let r = &mut c.rng;
    let retries = r.usize(4); let mode = r.below(3); let bad = r.usize(6); let op = r.below(4);
    c.tag = format!("{retries}/{mode}/{bad}/{op}"); c.desc = format!("send_retries={retries}, first connection dies, then {bad} connections {}, operation {op}", ["are closed at once", "greet but close at the first ping", "refuse the hello"][mode as usize]);
    let cf = ServerCfg::default(); let n = Arc::new(AtomicUsize::new(0)); let nn = n.clone();
    let srv = Server::start(cf.clone(), move |c| {
        let k = nn.fetch_add(1, SeqCst);
        if k == 0 { if greet(c)?.is_none() { return Ok(()); } return match c.recv()? { Some(Msg::Ping) => { c.send(&PONG); Ok(()) } _ => Ok(()) }; }
        if k <= bad { match mode { 0 => return Ok(()), 1 => { if greet(c)?.is_some() { c.recv()?; } return Ok(()) } _ => { c.recv()?; c.send(&exception(9, "X", "no", "")); return Ok(()) } } }
        serve_sql(c)
    });
    let p = Pool::new(format!("tcp://127.0.0.1:{}?ping_before_query=true&send_retries={retries}&retry_timeout=1ms&ping_timeout=3s&connection_timeout=3s&pool_min=1&pool_max=2", srv.port));
    let res = rt.block_on(lim("operation", async {
        let mut h = p.get_handle().await.map_err(es)?; h.ping().await.map_err(|e| format!("ping: {e}"))?;
        tokio::time::sleep(Duration::from_millis(2)).await;
        Ok(match op { 0 => h.execute("ok").await.map_err(es), 1 => blocks(&mut h, "two").await.map_err(es).map(|_| ()), 2 => h.check_connection().await.map_err(es), _ => all(&mut h, "two").await.map_err(es).map(|_| ()) })
    }))?;
    let made = n.load(SeqCst) - 1;
    if made > retries + 1 { return Err(format!("{made} reconnections with send_retries={retries}")); }
    // what the option promises: a server back within the allowed attempts is reached
    let enough = retries > 0 && bad < retries;
    if enough && res.is_err() { return Err(format!("gave up after {made} reconnections with send_retries={retries}, server was back after {bad}: {}", res.unwrap_err())); }
    if !enough && res.is_ok() && bad > retries { return Err(format!("success although {bad} connections were bad")); }
    Ok(())
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Op { Blocks, All, Exec, Insert, Ping, Rows }
async fn run_op(h: &mut ClientHandle, op: Op, b: &CBlock) -> Result<Vec<CBlock>, (Vec<CBlock>, Error)> {
    match op {
        Op::Blocks => { let mut o = vec![]; let mut st = h.query("Q").stream_blocks(); while let Some(x) = st.next().await { match x { Ok(x) => o.push(x), Err(e) => { drop(st); return Err((o, e)) } } } Ok(o) }
        Op::All => h.query("Q").fetch_all().await.map(|_| vec![]).map_err(|e| (vec![], e)),
        Op::Rows => { let mut st = h.query("Q").stream(); while let Some(x) = st.next().await { if let Err(e) = x { return Err((vec![], e)); } } Ok(vec![]) }
        Op::Exec => h.execute("Q").await.map(|_| vec![]).map_err(|e| (vec![], e)),
        Op::Insert => h.insert("t", b).await.map(|_| vec![]).map_err(|e| (vec![], e)),
        Op::Ping => h.ping().await.map(|_| vec![]).map_err(|e| (vec![], e)),
    }
}
/// broken answers, exceptions, abandoned results; the handle afterwards
pub fn p20(c: &mut Case, rt: &Runtime) -> Result<(), String> {
    let r = &mut c.rng;
    let cf = ServerCfg { compress: r.bool(), ..Default::default() }; let ping = r.bool();
    let first = simple_blk(r, 1); let mut bs = vec![first.clone()]; for i in 0..r.usize(3) { let mut b = gen_like(r, &first, 2); b.cols[0].2 = vec![V::N((i as u32 + 2).to_le_bytes().to_vec()); 2]; bs.push(b); }
    let other = { let n = 1 + r.usize(3); let mut b = gen_blk(r, vec![Ty::U32], n); b.cols[0].0 = "other".into(); b };
    let op = *r.pick(&[Op::Blocks, Op::All, Op::Exec, Op::Insert, Op::Ping, Op::Rows]);
    let mode = r.below(4); // 0 truncate+close, 1 exception, 2 abandon, 3 garbage packet number
    let full = match op { Op::Insert => cf.data(1, &first.header()), Op::Ping => PONG.to_vec(), _ => select_reply(&cf, &bs) };
    let after_data = op == Op::Insert && r.bool();
    let exc_at_start = r.bool(); let mut odd = false;
    let (bytes, close) = match mode {
        0 => { let k = if op == Op::Ping { 0 } else { r.usize(full.len()) }; (full[..k].to_vec(), true) }
        3 => { let mut b = if op == Op::Ping || op == Op::Insert || r.bool() { vec![] } else { cf.data(1, &first.header()) };
            if r.bool() { b.push(r.pick(&[12u8, 13, 99, 127]).to_owned()); }
            else { // a packet of the protocol that has no place here; the rest of the answer follows it
                match op {
                    Op::Ping => b.extend(if r.bool() { cf.data(1, &first.header()) } else { EOS.to_vec() }),
                    Op::Insert if after_data => b.extend(if r.bool() { cf.data(1, &first.header()) } else { PONG.to_vec() }),
                    _ => b.extend(if r.bool() { PONG.to_vec() } else { cf.hello() }),
                }
                odd = true; b.extend(match op { Op::Ping => PONG.to_vec(), Op::Insert => EOS.to_vec(), _ => { let mut x = cf.data(1, &first); x.extend(EOS); x } });
            }
            (b, false) }
        1 => { let mut b = if exc_at_start || op == Op::Ping || op == Op::Insert { vec![] } else { let mut x = cf.data(1, &first.header()); x.extend(cf.data(1, &first)); x }; b.extend(exception(241, "DB::Exception", "boom", "st")); (b, false) }
        _ => (full.clone(), false),
    };
    let mode = if mode == 2 && !matches!(op, Op::Blocks) { 1 } else { mode };
    let bytes = if mode == 1 && bytes == full { exception(241, "DB::Exception", "boom", "st") } else { bytes };
    let partial = mode == 2 && r.bool();
    let early = mode == 2 && r.one_in(3); let partial = partial || early;
    let cut = if early { 0 } else { // where the abandoned answer stops until the cancel
        let mut x = cf.data(1, &first.header()); x.extend(cf.data(1, &first)); x.len() };
    c.tag = format!("{op:?}/{mode}/{ping}/{after_data}/{}/{}", bytes.len(), partial); c.desc = format!("{op:?} with {} , ping_before_query={ping}, then the handle is used again", match mode { 0 => format!("answer cut after {} of {} bytes{}", bytes.len(), full.len(), if after_data { " (after the data)" } else { "" }), 1 => "server exception".into(), 2 => if early { "result abandoned before anything arrived".to_string() } else { "result abandoned after the first block".to_string() }, _ => format!("{} packet {:02x?}", if odd { "an unexpected" } else { "an unknown" }, &bytes[..bytes.len().min(8)]) });
    let rep2 = select_reply(&cf, &[other.clone()]);
    let n = Arc::new(AtomicUsize::new(0)); let types: Vec<Ty> = first.cols.iter().map(|c| c.1.clone()).collect(); let hdr = cf.data(1, &first.header());
    let odd_clear = mode == 2 && partial && r.one_in(4); // the server answers the cancel with a pong first
    let (bytes2, full2) = (bytes.clone(), full.clone());
    let srv = Server::start(cf.clone(), move |c| {
        if greet(c)?.is_none() { return Ok(()); }
        let mut owed: Option<Vec<u8>> = None;
        loop {
            match c.recv()? {
                None => return Ok(()),
                Some(Msg::Cancel) => if let Some(b) = owed.take() { if odd_clear { c.send(&PONG); std::thread::sleep(std::time::Duration::from_millis(3)); } c.send(&b) },
                Some(Msg::Ping) => { if op == Op::Ping && n.fetch_add(1, SeqCst) == 0 { c.send(&bytes2); if close { return Ok(()); } } else { c.send(&PONG) } }
                Some(Msg::Query(q)) => {
                    c.recv()?;
                    if owed.is_some() { return Err("a new query was sent while an answer is outstanding".into()); }
                    if q.sql == "SECOND" { c.send(&rep2); continue; }
                    if op == Op::Insert && after_data {
                        c.send(&hdr); c.ex.types = types.clone();
                        loop { match c.recv()? { None => return Ok(()), Some(Msg::Data { blk, .. }) if blk.cols.is_empty() => break, Some(Msg::Data { .. }) => {} Some(m) => return Err(format!("unexpected {m:?}")) } }
                        c.ex.types = vec![];
                        if close { return Ok(()); }
                    }
                    if op == Op::Insert { c.ex.types = types.clone(); }
                    if partial { c.send(&full2[..cut]); owed = Some(full2[cut..].to_vec()); } else { c.send(&bytes2); }
                    if close { return Ok(()); }
                }
                Some(Msg::Data { .. }) => {}
                Some(m) => return Err(format!("unexpected {m:?}")),
            }
        }
    });
    let p = Pool::new(url(srv.port, &cf, &format!("ping_before_query={ping}&pool_min=1&pool_max=2")));
    let cb = CBlock::new().column("id", vec![1u32]).column(&first.cols[1].0, vec![1u32]);
    let res = rt.block_on(lim("operation", async {
        // a block that fits the table, built by reading it
        let blk = if op == Op::Insert { fetch(&cf, &[first.clone()]).await?.remove(0) } else { cb };
        let mut h = p.get_handle().await.map_err(es)?;
        let mut server_exc = false;
        if mode == 2 {
            let mut st = h.query("Q").stream_blocks();
            if early { if let Ok(x) = tokio::time::timeout(Duration::from_millis(12), st.next()).await { return Err(format!("an answer nobody sent: {:?}", x.map(|y| y.map(|b| b.row_count()).map_err(es)))); } }
            else { let x = st.next().await; match x { Some(Ok(b)) => cmp_block("first block", &b, &bs[0])?, x => return Err(format!("first block: {:?}", x.map(|y| y.map(|b| b.row_count()).map_err(es)))) } }
            drop(st);
        } else {
            match run_op(&mut h, op, &blk).await {
                Ok(_) => return Err(format!("{op:?} succeeded although the answer was not complete")),
                Err((got, e)) => {
                    if mode == 1 { match &e { Error::Server(s) if s.code == 241 && s.message == "boom" => server_exc = true, e => return Err(format!("the server's exception is reported as {e}")) } }
                    else if matches!(e, Error::Server(_)) { return Err(format!("reported as a server error: {e}")); }
                    if got.len() > bs.len() { return Err("more blocks than were sent".into()); }
                    for (a, b) in got.iter().zip(&bs) { cmp_block("block before the failure", a, b)?; }
                }
            }
        }
        let _ = server_exc;
        // use the same handle again
        match blocks(&mut h, "SECOND").await {
            Ok(b) => { if b.len() != 1 { return Err(format!("second query on the handle: {} blocks instead of 1", b.len())); } cmp_block("second query on the handle", &b[0], &other)?; }
            Err(e) => { if ping && (mode == 1 || mode == 2) { return Err(format!("the handle is unusable after {}: {e}", if mode == 1 { "a server exception" } else { "an abandoned result" })); } if mode == 2 && !odd_clear { return Err(format!("the handle is unusable after an abandoned result: {e}")); } }
        }
        drop(h);
        // and through the pool
        for _ in 0..2 { let mut h = p.get_handle().await.map_err(es)?; let b = match blocks(&mut h, "SECOND").await { Ok(b) => b, Err(e) => return Err(format!("handle from the pool fails: {e}")) }; if b.len() != 1 { return Err(format!("handle from the pool: {} blocks", b.len())); } cmp_block("handle from the pool", &b[0], &other)?; }
        Ok(())
    }));
    if let Some(e) = srv.take_errors().pop() { return Err(e); } res
}
