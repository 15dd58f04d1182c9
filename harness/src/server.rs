//! In-process fake ClickHouse server on loopback TCP, driven by a script.
use crate::oracle::*;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug)]
pub struct ServerCfg { pub revision: u64, pub tz: String, pub compress: bool, pub name: String, pub display: String, pub major: u64, pub minor: u64, pub patch: u64 }
impl Default for ServerCfg {
    fn default() -> Self { ServerCfg { revision: 54429, tz: "UTC".into(), compress: false, name: "ClickHouse".into(), display: "srv".into(), major: 20, minor: 3, patch: 7 } }
}
impl ServerCfg {
    pub fn hello(&self) -> Vec<u8> {
        let mut w = W::new();
        w.uv(0).str(&self.name).uv(self.major).uv(self.minor).uv(self.revision);
        if self.revision >= 54058 { w.str(&self.tz); }
        if self.revision >= 54372 { w.str(&self.display); }
        if self.revision >= 54401 { w.uv(self.patch); }
        w.0
    }
    pub fn progress(&self, v: [u64; 5]) -> Vec<u8> {
        let mut w = W::new();
        w.uv(3).uv(v[0]).uv(v[1]);
        if self.revision >= 51554 { w.uv(v[2]); }
        if self.revision >= 54420 { w.uv(v[3]).uv(v[4]); }
        w.0
    }
    pub fn profile(&self, v: [u64; 4], b: [bool; 2]) -> Vec<u8> {
        let mut w = W::new();
        w.uv(6).uv(v[0]).uv(v[1]).uv(v[2]).raw(&[b[0] as u8]).uv(v[3]).raw(&[b[1] as u8]);
        w.0
    }
    pub fn data(&self, kind: u64, b: &Blk) -> Vec<u8> {
        let mut w = W::new();
        w.uv(kind).str("");
        let raw = b.raw();
        if self.compress { w.raw(&frame(&raw)); } else { w.raw(&raw); }
        w.0
    }
}
pub fn exception(code: u32, name: &str, msg: &str, st: &str) -> Vec<u8> {
    let mut w = W::new();
    w.uv(2).raw(&code.to_le_bytes()).str(name).str(msg).str(st);
    w.0
}
pub fn table_columns(t: &str, c: &str) -> Vec<u8> { let mut w = W::new(); w.uv(11).str(t).str(c); w.0 }
pub const EOS: [u8; 1] = [5];
pub const PONG: [u8; 1] = [4];

#[derive(Clone, Debug, PartialEq)]
pub struct Settings { pub items: Vec<(String, Option<bool>, Vec<u8>)> }
#[derive(Clone, Debug)]
pub struct HelloMsg { pub client: String, pub ver: [u64; 3], pub db: String, pub user: String, pub pass: String }
#[derive(Clone, Debug)]
pub struct QueryMsg { pub query_id: String, pub kind: u64, pub initial_user: String, pub initial_id: String, pub addr: String, pub iface: u64, pub os_user: String, pub host: String,
    pub client: String, pub ver: [u64; 3], pub quota: Option<String>, pub patch: Option<u64>, pub settings: Settings, pub stage: u64, pub compression: u64, pub sql: String, pub raw: Vec<u8> }
#[derive(Clone, Debug)]
pub enum Msg { Hello(HelloMsg), Query(QueryMsg), Data { table: String, blk: Blk, types: Vec<String>, raw: Vec<u8> }, Cancel, Ping }

/// expected types of the data block being inserted; how to read old-format settings
#[derive(Clone, Default)]
pub struct Expect { pub types: Vec<Ty>, pub old_settings: Vec<(String, char)> }

pub fn parse_msg(b: &[u8], cfg: &ServerCfg, ex: &Expect) -> ORes<(Msg, usize)> {
    let mut r = Rd::new(b);
    let m = match r.uv()? {
        0 => Msg::Hello(HelloMsg { client: r.str()?, ver: [r.uv()?, r.uv()?, r.uv()?], db: r.str()?, user: r.str()?, pass: r.str()? }),
        1 => {
            let query_id = r.str()?; let kind = r.uv()?; let initial_user = r.str()?; let initial_id = r.str()?; let addr = r.str()?;
            let iface = r.uv()?; let os_user = r.str()?; let host = r.str()?; let client = r.str()?; let ver = [r.uv()?, r.uv()?, r.uv()?];
            let quota = if cfg.revision >= 54060 { Some(r.str()?) } else { None };
            let patch = if cfg.revision >= 54401 { Some(r.uv()?) } else { None };
            let mut items = vec![];
            loop {
                let n = r.str()?;
                if n.is_empty() { break; }
                if cfg.revision >= 54429 { let f = r.u8()?; if f > 1 { return bad("setting flag"); } let v = r.s()?; items.push((n, Some(f == 1), v)); }
                else {
                    let k = match ex.old_settings.iter().find(|x| x.0 == n) { Some(x) => x.1, None => return bad(format!("unknown setting {n:?}")) };
                    let v = if k == 'u' { r.uv()?.to_string().into_bytes() } else { r.s()? };
                    items.push((n, None, v));
                }
            }
            let stage = r.uv()?; let compression = r.uv()?; let sql = r.str()?;
            Msg::Query(QueryMsg { query_id, kind, initial_user, initial_id, addr, iface, os_user, host, client, ver, quota, patch, settings: Settings { items }, stage, compression, sql, raw: b[..r.p].to_vec() })
        }
        2 => {
            let table = r.str()?;
            let types = ex.types.clone();
            let tf = move |i: usize, _n: &str, tn: &str| -> ORes<Ty> { types.get(i).cloned().map_or_else(|| bad(format!("unexpected column {i} of type {tn}")), Ok) };
            if cfg.compress {
                let mut raw = unframe(&mut r)?;
                loop {
                    let mut rr = Rd::new(&raw);
                    match dec_block(&mut rr, &tf) {
                        Ok((blk, types)) => { if rr.p != raw.len() { return bad("bytes left in the frame after the block"); } let n = r.p; return Ok((Msg::Data { table, blk, types, raw: raw.clone() }, n)); }
                        Err(OErr::More) => { let x = unframe(&mut r)?; raw.extend(x); }
                        Err(e) => return Err(e),
                    }
                }
            }
            let s = r.p;
            let (blk, types) = dec_block(&mut r, &tf)?;
            Msg::Data { table, blk, types, raw: b[s..r.p].to_vec() }
        }
        3 => Msg::Cancel,
        4 => Msg::Ping,
        x => return bad(format!("client packet {x}")),
    };
    let n = r.p;
    Ok((m, n))
}

pub struct Conn { pub s: TcpStream, pub buf: Vec<u8>, pub cfg: ServerCfg, pub ex: Expect, pub index: usize, pub stop: Arc<AtomicBool> }
impl Conn {
    /// None: the client closed the connection
    pub fn recv(&mut self) -> Result<Option<Msg>, String> {
        let mut need = 0;
        loop {
            if !self.buf.is_empty() && self.buf.len() >= need {
                match parse_msg(&self.buf, &self.cfg, &self.ex) {
                    Ok((m, n)) => { self.buf.drain(..n); return Ok(Some(m)); }
                    Err(OErr::More) => { if self.buf.len() > 1 << 18 { need = self.buf.len() * 2; } }
                    Err(OErr::Bad(e)) => return Err(format!("client sent an invalid message: {e}; bytes {:02x?}", &self.buf[..self.buf.len().min(200)])),
                }
            }
            let mut t = vec![0u8; 1 << 16];
            loop {
                match self.s.read(&mut t) {
                    Ok(0) => { return if self.buf.is_empty() { Ok(None) } else { Err(format!("client closed inside a message: {:02x?}", &self.buf[..self.buf.len().min(64)])) } }
                    Ok(n) => { self.buf.extend_from_slice(&t[..n]); break; }
                    Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => { if self.stop.load(Ordering::Relaxed) { return Ok(None); } if need > 0 { need = 0; break; } }
                    Err(_) => return Ok(None),
                }
            }
        }
    }
    pub fn send(&mut self, b: &[u8]) { let _ = self.s.write_all(b); let _ = self.s.flush(); }
    /// send in pieces cut at the given offsets, letting the client see each piece
    pub fn send_cut(&mut self, b: &[u8], cuts: &[usize]) {
        let mut p = 0;
        for &c in cuts { if c > p && c < b.len() { self.send(&b[p..c]); p = c; std::thread::sleep(Duration::from_micros(400)); } }
        self.send(&b[p..]);
    }
    pub fn close(&mut self) { let _ = self.s.shutdown(std::net::Shutdown::Both); }
}
pub struct Server { pub port: u16, pub stop: Arc<AtomicBool>, pub errors: Arc<Mutex<Vec<String>>>, pub conns: Arc<AtomicUsize>, h: Option<std::thread::JoinHandle<TcpListener>> }
impl Server {
    pub fn start<F>(cfg: ServerCfg, f: F) -> Server where F: Fn(&mut Conn) -> Result<(), String> + Send + Sync + 'static {
        let l = take_listener();
        let port = l.local_addr().unwrap().port();
        let stop = Arc::new(AtomicBool::new(false)); let errors = Arc::new(Mutex::new(vec![])); let conns = Arc::new(AtomicUsize::new(0));
        let (st, er, co) = (stop.clone(), errors.clone(), conns.clone());
        let f = Arc::new(f);
        let h = std::thread::spawn(move || {
            for s in l.incoming() {
                if st.load(Ordering::Relaxed) { break; }
                let s = match s { Ok(s) => s, Err(_) => continue };
                let _ = s.set_nodelay(true); let _ = s.set_read_timeout(Some(Duration::from_millis(50)));
                let index = co.fetch_add(1, Ordering::SeqCst);
                let (cfg, st, er, f) = (cfg.clone(), st.clone(), er.clone(), f.clone());
                std::thread::spawn(move || {
                    let mut c = Conn { s, buf: vec![], cfg, ex: Expect::default(), index, stop: st };
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut c)));
                    match r { Ok(Ok(())) => {} Ok(Err(e)) => er.lock().unwrap().push(e), Err(_) => er.lock().unwrap().push("server script panicked (harness)".into()) }
                    c.close();
                });
            }
            l
        });
        Server { port, stop, errors, conns, h: Some(h) }
    }
    pub fn take_errors(&self) -> Vec<String> { std::mem::take(&mut *self.errors.lock().unwrap()) }
}
impl Drop for Server {
    fn drop(&mut self) { self.stop.store(true, Ordering::Relaxed); let _ = TcpStream::connect(("127.0.0.1", self.port)); if let Some(h) = self.h.take() { if let Ok(l) = h.join() { RETIRED.with(|r| r.borrow_mut().push(l)); } } }
}
/// hello exchange
pub fn greet(c: &mut Conn) -> Result<Option<HelloMsg>, String> {
    match c.recv()? { Some(Msg::Hello(h)) => { let b = c.cfg.hello(); c.send(&b); Ok(Some(h)) } None => Ok(None), Some(m) => Err(format!("expected hello, got {m:?}")) }
}

thread_local! {
    static FREE: std::cell::RefCell<Vec<TcpListener>> = const { std::cell::RefCell::new(vec![]) };
    static RETIRED: std::cell::RefCell<Vec<TcpListener>> = const { std::cell::RefCell::new(vec![]) };
}
/// listening ports are reused from case to case (a fresh one each time would exhaust the port range)
fn take_listener() -> TcpListener {
    if let Some(l) = FREE.with(|f| f.borrow_mut().pop()) { return l; }
    for _ in 0..200 { if let Ok(l) = TcpListener::bind("127.0.0.1:0") { return l; } std::thread::sleep(Duration::from_millis(50)); }
    panic!("harness: no listening port to be had");
}
/// between cases, when nothing of the last case runs any more
pub fn recycle() {
    let ls = RETIRED.with(|r| std::mem::take(&mut *r.borrow_mut()));
    for l in ls { let _ = l.set_nonblocking(true); while l.accept().is_ok() {} let _ = l.set_nonblocking(false); FREE.with(|f| f.borrow_mut().push(l)); }
}
