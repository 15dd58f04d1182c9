"""The transport: reading a reply, handing out its packets, writing requests."""
from . import cols as K

T = "src/io/transport.rs"
RE = "src/io/read_to_end.rs"
TY = "src/types/mod.rs"

STUBS = """
pub enum Poll<V> { Ready(V), Pending }
impl<V> Poll<V> { pub fn is_pending(&self) -> (r: bool) ensures r == (self is Pending) { match self { Poll::Pending => true, _ => false } } }
pub struct Context { _p: () }                   // task::Context: only handed on
// ---- the socket (dependency): what has been received from it and sent into it so far ----
#[verifier::external_body] pub struct InnerStream { _p: () }
impl InnerStream {
    pub uninterp spec fn got(&self) -> Seq<u8>;
    pub uninterp spec fn sent(&self) -> Seq<u8>;
    pub uninterp spec fn ended(&self) -> bool;       // the peer has closed the connection
    pub uninterp spec fn failed(&self) -> bool;      // the last operation failed
    pub uninterp spec fn waits(&self) -> bool;       // the last operation registered the task to be woken
    #[verifier::external_body] pub fn poll_read(&mut self, cx: &mut Context, buf: &mut [u8]) -> (r: Poll<io::Result<usize>>)
        ensures final(buf)@.len() == old(buf)@.len(), final(self).sent() == old(self).sent(), old(self).ended() ==> final(self).ended(),
            match r {
                Poll::Ready(Ok(n)) => n <= old(buf)@.len() && final(self).got() == old(self).got() + final(buf)@.take(n as int) && (n == 0 && old(buf)@.len() > 0 ==> final(self).ended()),
                Poll::Ready(Err(e)) => final(self).got() == old(self).got() && final(self).failed(),
                Poll::Pending => final(self).got() == old(self).got() && final(self).waits(),
            } { unimplemented!() }
    #[verifier::external_body] pub fn poll_write(&mut self, cx: &mut Context, buf: &[u8]) -> (r: Poll<io::Result<usize>>)
        ensures final(self).got() == old(self).got(), final(self).ended() == old(self).ended(),
            match r {
                Poll::Ready(Ok(n)) => n <= buf@.len() && final(self).sent() == old(self).sent() + buf@.take(n as int),
                Poll::Ready(Err(e)) => final(self).sent() == old(self).sent() && final(self).failed(),
                Poll::Pending => final(self).sent() == old(self).sent() && final(self).waits(),
            } { unimplemented!() }
}
#[verifier::external_body] pub fn slice_mut_from(b: &mut Vec<u8>, at: usize) -> (r: &mut [u8])
    requires at <= old(b)@.len()
    ensures r@ == old(b)@.skip(at as int), final(r)@.len() == r@.len() ==> final(b)@ == old(b)@.take(at as int) + final(r)@ { unimplemented!() }
#[verifier::external_body] pub fn slice_from(b: &Vec<u8>, at: usize) -> (r: &[u8]) requires at <= b@.len() ensures r@ == b@.skip(at as int) { unimplemented!() }
// reserve(n), then set_len(capacity): at least n bytes more, of whatever contents
#[verifier::external_body] pub fn reserve_vec(b: &mut Vec<u8>, n: usize) -> (cap: Ghost<nat>) ensures final(b)@ == old(b)@, cap@ >= old(b)@.len() + n, final(b)@.len() + n <= usize::MAX { unimplemented!() }
#[verifier::external_body] pub fn capacity_vec(b: &Vec<u8>, Ghost(cap): Ghost<nat>) -> (r: usize) ensures r >= cap { unimplemented!() }
#[verifier::external_body] pub fn set_len_vec(b: &mut Vec<u8>, n: usize) ensures final(b)@.len() == n, forall|i: int| 0 <= i < n && i < old(b)@.len() ==> final(b)@[i] == old(b)@[i] { unimplemented!() }
// ptr::copy(v.as_ptr().add(from), v.as_mut_ptr(), n): an overlapping move inside the vector
#[verifier::external_body] pub fn copy_down(b: &mut Vec<u8>, from: usize, n: usize) requires from + n <= old(b)@.len() ensures final(b)@ == old(b)@.subrange(from as int, from + n) + old(b)@.skip(n as int) { unimplemented!() }
// ---- requests ----
#[verifier::external_body] pub struct Cmd { _p: () }
impl Cmd {
    pub uninterp spec fn packed(&self) -> Seq<u8>;       // the bytes of the message (the subject of the cmds unit)
    #[verifier::external_body] pub fn get_packed_command(&self) -> (r: Result<Vec<u8>>) ensures r matches Ok(b) ==> b@ == self.packed() { unimplemented!() }
}
pub open spec fn queued(c: Seq<Cmd>) -> Seq<u8> decreases c.len() { if c.len() == 0 { Seq::empty() } else { c[0].packed() + queued(c.skip(1)) } }
#[verifier::external_body] pub struct TransportStatus { _p: () }
pub struct Status { pub _s: Option<u8> }
pub fn opt_ok<V>(o: Option<V>) -> (r: Option<io::Result<V>>) ensures r == (match o { Some(v) => Some(Ok::<V, io::Error>(v)), None => None::<io::Result<V>> }) { match o { Some(v) => Some(Ok(v)), None => None } }
pub fn io_err(e: Error) -> (r: io::Error) ensures (r.k == io::ErrorKind::WouldBlock) == is_would_block(e) { match e { Error::Io(x) => x, _ => io::Error { k: io::ErrorKind::Other } } }
// io::Cursor: position stays inside the data (set_position is only called that way: a precondition)
mod iocur {
    use super::*;
    pub struct WrCursor { data: Vec<u8>, pos: u64 }
    impl WrCursor {
        #[verifier::type_invariant] spec fn inside(self) -> bool { self.pos <= self.data@.len() }
        pub closed spec fn all(&self) -> Seq<u8> { self.data@ }
        pub closed spec fn at(&self) -> nat { self.pos as nat }
        pub open spec fn left(&self) -> Seq<u8> { self.all().skip(self.at() as int) }
        pub fn new(data: Vec<u8>) -> (r: WrCursor) ensures r.all() == data@, r.at() == 0, r.left() == data@ { proof { assert(data@.skip(0) =~= data@); } WrCursor { data, pos: 0 } }
        pub fn get_ref(&self) -> (r: &Vec<u8>) ensures r@ == self.all() { &self.data }
        pub fn position(&self) -> (r: u64) ensures r == self.at(), self.at() <= self.all().len() { proof { use_type_invariant(self); } self.pos }
        pub fn set_position(&mut self, n: u64) requires n <= old(self).all().len() ensures final(self).all() == old(self).all(), final(self).at() == n { self.pos = n; }
    }
    pub struct MemCursor<'a> { data: &'a Vec<u8>, pos: u64 }
    impl<'a> MemCursor<'a> {
        #[verifier::type_invariant] spec fn inside(self) -> bool { self.pos <= self.data@.len() }
        pub closed spec fn all(&self) -> Seq<u8> { self.data@ }
        pub closed spec fn at(&self) -> nat { self.pos as nat }
        pub fn new(data: &'a Vec<u8>) -> (r: MemCursor<'a>) ensures r.all() == data@, r.at() == 0 { MemCursor { data, pos: 0 } }
        pub fn position(&self) -> (r: u64) ensures r == self.at(), self.at() <= self.all().len() { proof { use_type_invariant(self); } self.pos }
    }
}
pub use iocur::{WrCursor, MemCursor};
// io::Cursor<&Vec<u8>> reads its bytes and never fails; &mut R reads like R (the reader extension over it: the wire unit)
impl<'a, 'b> ReadEx for &'b mut MemCursor<'a> {
    type Anchor = (Seq<u8>, MemCursor<'a>);
    open spec fn rest(&self) -> Seq<u8> { self.all().skip(self.at() as int) }
    open spec fn steady(&self) -> bool { true }
    #[verifier::prophetic] open spec fn anchor(&self) -> (Seq<u8>, MemCursor<'a>) { (self.all(), *final(*self)) }
    #[verifier::external_body] fn read_bytes(&mut self, rv: &mut [u8]) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn read_scalar<V>(&mut self) -> (r: Result<V>) { unimplemented!() }
    #[verifier::external_body] fn read_uvarint(&mut self) -> (r: Result<u64>) { unimplemented!() }
    #[verifier::external_body] fn read_string(&mut self) -> (r: Result<String>) { unimplemented!() }
    #[verifier::external_body] fn skip_string(&mut self) -> (r: Result<()>) { unimplemented!() }
}
"""

CTX = (r"cx: &mut (?:task::)?Context(?:<'_>)?", "cx: &mut Context", "lifetime of task::Context dropped")
TR = (r"(?:trace|warn)!\([^;]*\);", "", "logging dropped")


def read_to_end(u):
    FL = "the guard flattened into its two fields"
    u.fn(RE, "impl ^impl Drop for Guard", "fn drop", rename="guard_drop", vis="pub", sig=[(r"&mut self", "buf: &mut Vec<u8>, len: usize", FL)],
         rewrites=[(r"unsafe \{(.*?)\}", r"\1", "unsafe set_len through a stub"), (r"self\.buf\.set_len\(", "set_len_vec(buf, ", "Vec::set_len through a stub"), (r"self\.(buf|len)\b", r"\1", FL)],
         spec="requires len <= old(buf)@.len() ensures final(buf)@ == old(buf)@.take(len as int)",
         hints=[("end", "", "proof { assert(buf@ =~= old(buf)@.take(len as int)); }")])
    INV = """old(rd).ended() ==> rd.ended(), rd.sent() == old(rd).sent(), start_len <= g_len <= buf@.len(), start_len == old(buf)@.len(), buf@.take(start_len as int) == old(buf)@,
                rd.got() == old(rd).got() + buf@.subrange(start_len as int, g_len as int)"""
    u.fn(RE, "fn read_to_end", vis="pub", attrs="#[verifier::exec_allows_no_decreases_clause]",
         sig=[CTX, (r"mut rd: Pin<&mut InnerStream>", "rd: &mut InnerStream", "Pin dropped")],
         rewrites=[(r"let ret;", "let ret: Poll<io::Result<usize>>;", "type annotation"),
                   (r"let mut g = Guard \{\s*len: (.*?),\s*buf,?\s*\};", r"let mut g_len = \1;", FL),
                   (r"g\.buf\b", "buf", FL), (r"g\.len\b", "g_len", FL),
                   (r"rd\.as_mut\(\)\.poll_read\(cx, &mut buf\[(.*?)\.\.\]\)", r"rd.poll_read(cx, slice_mut_from(buf, \1))", "Pin dropped; slicing through a stub"),
                   (r"ready!\((.*?\))\) \{", r"(match \1 { Poll::Ready(t) => t, Poll::Pending => { guard_drop(buf, g_len); return Poll::Pending; } }) {", "ready! expanded; drop of the guard written out at the exit"),
                   (r"unsafe \{(.*?)\}", r"\1", "unsafe set_len through a stub"),
                   (r"buf\.reserve\((\w+)\);", r"let cap0 = reserve_vec(buf, \1);", "Vec::reserve through a stub"),
                   (r"buf\.capacity\(\)", "capacity_vec(buf, cap0)", "Vec::capacity through a stub"),
                   (r"buf\.set_len\(", "set_len_vec(buf, ", "Vec::set_len through a stub"),
                   (r"\n    ret\n", "\n    guard_drop(buf, g_len); ret\n", "drop of the guard written out at the exit")],
         spec="""ensures final(rd).sent() == old(rd).sent(), old(buf)@.len() <= final(buf)@.len(), final(buf)@.take(old(buf)@.len() as int) == old(buf)@,
            final(rd).got() == old(rd).got() + final(buf)@.skip(old(buf)@.len() as int),
            match r { Poll::Ready(Ok(n)) => n == final(buf)@.len() - old(buf)@.len() && final(rd).ended(), Poll::Ready(Err(e)) => final(rd).failed(), Poll::Pending => final(rd).waits() }, old(rd).ended() ==> final(rd).ended()""",
         loops=[dict(head="^loop$", spec=f"""
            invariant_except_break {INV}
            ensures {INV},
                match ret {{ Poll::Ready(Ok(n)) => n == g_len - start_len && rd.ended(), Poll::Ready(Err(e)) => rd.failed(), Poll::Pending => false }}""")])


def transport(u):
    u.text(STUBS)
    read_to_end(u)
    u.item(T, "struct ClickhouseTransport", rewrites=[(r"#\[pin\]", "", ""), (r"io::Cursor<Vec<u8>>", "WrCursor", "io::Cursor through a stub"), (r"VecDeque<Cmd>", "std::collections::VecDeque<Cmd>", "module path"), (r"Arc<TransportStatus>", "std::sync::Arc<TransportStatus>", "module path"), K.PUBF, (r"pub\(crate\) ", "pub ", ""), (r"pub pub", "pub", "")])
    u.text("""
impl ClickhouseTransport {
    pub open spec fn ctx(&self) -> Ctx { Ctx { rev: self.info.revision, tz: self.info.timezone, compress: self.info.compress } }
    pub open spec fn head(&self) -> P<PacketV> { at_head(self.rd@, self.ctx()) }
    // what is still to be sent
    pub open spec fn due(&self) -> Seq<u8> { self.wr.left() + queued(self.cmds@) }
    pub open spec fn wf(&self) -> bool { (self.done ==> self.inner.ended()) && (self.buf_is_incomplete ==> self.head() is More) }
}
pub open spec fn same_but_read(a: ClickhouseTransport, b: ClickhouseTransport) -> bool { a.wr == b.wr && a.cmds == b.cmds && a.inner.sent() == b.inner.sent() && a.inconsistent == b.inconsistent }
pub open spec fn since(a: ClickhouseTransport, b: ClickhouseTransport) -> Seq<u8> { a.inner.got().skip(b.inner.got().len() as int) }
impl ClickhouseTransport {""")
    PJ = [(r"Cursor::new\(&self\.rd\)", "MemCursor::new(&self.rd)", "io::Cursor through a stub"), (r"Parser::new\(&mut cursor, self\.info\)", "Parser::new(&mut cursor, &self.info)", "pin projection: fields of the transport itself"),
          (r"unsafe \{(.*?)\n\s*\}", r"\1", "unsafe copy through stubs"), (r"ptr::copy\(self\.rd\.as_ptr\(\)\.add\((\w+)\), self\.rd\.as_mut_ptr\(\), (\w+)\);", r"copy_down(&mut self.rd, \1, \2);", "ptr::copy through a stub"),
          (r"self\.rd\.set_len\(", "set_len_vec(&mut self.rd, ", "Vec::set_len through a stub"), (r"Err\(e\.into\(\)\)", "Err(io_err(e))", "From<Error> for io::Error")]
    u.fn(T, r"impl ^impl<'p> ClickhouseTransportProj<'p>", "fn try_parse_msg", vis="pub", rewrites=PJ,
         spec="""ensures final(self).inner == old(self).inner, final(self).done == old(self).done, final(self).buf_is_incomplete == old(self).buf_is_incomplete, same_but_read(*final(self), *old(self)),
            match old(self).head() {
                P::Val(p, rest) => (r matches Poll::Ready(Some(Ok(k))) && k.v() == p) && final(self).rd@ == rest && final(self).ctx() == learn(old(self).ctx(), p),
                P::More => r is Pending && final(self).rd@ == old(self).rd@ && final(self).ctx() == old(self).ctx(),
                P::Bad => (r matches Poll::Ready(Some(Err(_)))) && final(self).ctx() == old(self).ctx(),
            }""", hints=[("start", "", "proof { assert(self.rd@.skip(0) =~= self.rd@); }"), ("end", "", "")])
    G = (T, r"impl ^impl ClickhouseTransport$")
    u.fn(*G, "fn wr_is_empty", vis="pub", spec="ensures r == (self.wr.left().len() == 0)")
    u.fn(*G, "fn wr_remaining", vis="pub", spec="ensures r == self.wr.left().len()")
    u.fn(*G, "fn wr_pos", vis="pub", spec="ensures r == self.wr.at(), self.wr.at() <= self.wr.all().len()")
    KEEP = "final(self).rd == old(self).rd, final(self).info == old(self).info, final(self).done == old(self).done, final(self).buf_is_incomplete == old(self).buf_is_incomplete, final(self).inner.got() == old(self).inner.got(), final(self).inner.ended() == old(self).inner.ended(), final(self).inconsistent == old(self).inconsistent"
    u.fn(*G, "fn wr_flush", vis="pub", sig=[CTX], rewrites=[TR, (r"Pin::new\(&mut self\.inner\)\.", "self.inner.", "Pin dropped"), (r"&self\.wr\.get_ref\(\)\[(\w+)\.\.\]", r"slice_from(self.wr.get_ref(), \1)", "slicing through a stub")],
         spec=f"""ensures {KEEP}, final(self).cmds == old(self).cmds,
            final(self).inner.sent() + final(self).wr.left() == old(self).inner.sent() + old(self).wr.left(), r is Err ==> final(self).inner.failed(), r == Ok::<bool, io::Error>(false) ==> final(self).wr.left() == old(self).wr.left() && final(self).inner.waits()""",
         hints=[("before", r"n \+= self\.wr\.position", "let _n0 = self.wr.get_ref().len(); "), ("after", r"self\.wr\.set_position\(n as u64\);", """proof { let k = n - old(self).wr.at(); assert(self.wr.left() =~= old(self).wr.left().skip(k)); assert(old(self).wr.left() =~= old(self).wr.left().take(k) + old(self).wr.left().skip(k));
             assert(self.inner.sent() + self.wr.left() =~= old(self).inner.sent() + old(self).wr.left()); }""")])
    u.fn(*G, "fn send", vis="pub", sig=[CTX], attrs="#[verifier::exec_allows_no_decreases_clause]",
         rewrites=[(r"cmd\.get_packed_command\(\)\?", "(match cmd.get_packed_command() { Ok(x) => x, Err(e) => return Poll::Ready(Err(e)) })", "`?` in a function returning Poll<Result> written out"),
                   (r"self\.wr_flush\(cx\)\?", "(match fl { Ok(x) => x, Err(e) => return Poll::Ready(Err(Error::from(e))) })", "`?` in a function returning Poll<Result> written out"),
                   (r"Cursor::new\(bytes\)", "WrCursor::new(bytes)", "io::Cursor through a stub")],
         spec=f"""ensures {KEEP},
            match r {{ Poll::Ready(Ok(_)) => final(self).due().len() == 0 && final(self).inner.sent() == old(self).inner.sent() + old(self).due(),
                Poll::Pending => final(self).inner.sent() + final(self).due() == old(self).inner.sent() + old(self).due() && final(self).inner.waits(), Poll::Ready(Err(_)) => true }}""",
         loops=[dict(head="^loop$", spec=f"""
            invariant {KEEP.replace("final(self)", "self")}, self.inner.sent() + self.due() == old(self).inner.sent() + old(self).due()""", start="let ghost s0 = *self;")],
         hints=[("after", r"self\.wr = WrCursor::new\(bytes\)", "; proof { assert(self.inner.sent() + self.due() =~= s0.inner.sent() + s0.due()); }"),
                ("before", r"if !\(match", "let ghost s1 = *self; let fl = self.wr_flush(cx); proof { assert(self.inner.sent() + self.due() =~= (self.inner.sent() + self.wr.left()) + queued(self.cmds@)); assert(s1.inner.sent() + s1.due() =~= (s1.inner.sent() + s1.wr.left()) + queued(s1.cmds@)); }")])
    
    IN = "self.inner.sent() == old(self).inner.sent(), same_but_read(*self, *old(self)), self.ctx() == old(self).ctx(), self.buf_is_incomplete == old(self).buf_is_incomplete, self.done ==> self.inner.ended(), self.inner.got() == old(self).inner.got() + since(*self, *old(self)), self.rd@ == old(self).rd@ + since(*self, *old(self))"
    u.fn(T, r"impl ^impl Stream for ClickhouseTransport$", "fn poll_next", vis="pub", attrs="#[verifier::exec_allows_no_decreases_clause]",
         sig=[CTX, (r"self: Pin<&mut Self>", "&mut self", "Pin dropped"), (r"Self::Item", "io::Result<Packet<()>>", "associated type written out")],
         rewrites=[(r"let mut this = self\.project\(\);", "", "pin projection: fields of the transport itself"),
                   (r"read_to_end\(this\.inner\.as_mut\(\), cx, this\.rd\)", "rr", "pin projection: fields of the transport itself"),
                   (r"\*?\bthis\.", "self.", "pin projection: fields of the transport itself"),
                   (r"self\.try_parse_msg\(\)\?", "(match self.try_parse_msg() { Poll::Ready(Some(Err(e))) => return Poll::Ready(Some(Err(e))), Poll::Ready(Some(Ok(v))) => Poll::Ready(Some(v)), Poll::Ready(None) => Poll::Ready(None), Poll::Pending => Poll::Pending })", "`?` on Poll<Option<Result>> written out"),
                   (r"ret\.map\(Ok\)", "opt_ok(ret)", "Option::map(Ok) through a helper"),
                   (r"io::ErrorKind::UnexpectedEof\.into\(\)", "io::Error::from(io::ErrorKind::UnexpectedEof)", "x.into() written as io::Error::from(x)")],
         spec="""requires old(self).wf()
        ensures !(r matches Poll::Ready(Some(Err(_)))) ==> final(self).wf(), same_but_read(*final(self), *old(self)), final(self).inner.got() == old(self).inner.got() + since(*final(self), *old(self)),
            ({ let all = old(self).rd@ + since(*final(self), *old(self)); let h = at_head(all, old(self).ctx());
               match r {
                Poll::Ready(Some(Ok(k))) => h == P::Val(k.v(), final(self).rd@) && final(self).ctx() == learn(old(self).ctx(), k.v()),
                Poll::Ready(Some(Err(_))) => h is Bad || (h is More && final(self).inner.ended()) || final(self).inner.failed(),
                Poll::Ready(None) => all.len() == 0 && final(self).inner.ended(),
                Poll::Pending => h is More && final(self).rd@ == all && final(self).ctx() == old(self).ctx() && final(self).inner.waits(),
               } })""",
         loops=[dict(head="^while !self\\.done$", spec=f"""
            invariant_except_break {IN}, true
            ensures {IN}, self.done || self.inner.waits()""", start="let ghost s0 = *self;")],
         hints=[("before", r"match rr", """let rr = read_to_end(&mut self.inner, cx, &mut self.rd);
                proof { assert(self.inner.got() =~= old(self).inner.got() + since(*self, *old(self))); assert(self.rd@ =~= s0.rd@ + self.rd@.skip(s0.rd@.len() as int)); assert(self.rd@ =~= old(self).rd@ + since(*self, *old(self))); }
                """),
                ("start", "", "proof { assert(old(self).rd@ + since(*old(self), *old(self)) =~= old(self).rd@); assert(old(self).inner.got() + since(*old(self), *old(self)) =~= old(self).inner.got()); }")])
    u.text("}")
