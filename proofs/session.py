"""Sessions: what a connection is asked and what it answers (P20), retrying (P19)."""
import re
from . import cols as K, common as C

T = "src/io/transport.rs"
L = "src/lib.rs"
TY = "src/types/mod.rs"
CM = "src/types/cmd.rs"
SB = "src/types/query_result/stream_blocks.rs"
QR = "src/types/query_result/mod.rs"
PO = "src/pool/mod.rs"
RG = "src/retry_guard.rs"

# the sequential text of an async function
ASYNC = [
    (r"with_timeout\(\s*async(?: move)? \{", "{", "async text read sequentially: with_timeout(async {..}, d).await is its body (a timeout drops the future at an await, see DESIGN)"),
    (r"\},\s*timeout,?\s*\)\s*\.await", "}", "async text read sequentially: with_timeout"),
    (r"self\.wrap_future\(move \|c\| \{", "{ self.wrap_future_()?; ", "wrap_future(f) read as its preparation followed by f"),
    (r"\}\)\s*\.await", "}", "wrap_future(f) read as its preparation followed by f"),
    (r"let transport = c\.get_inner\(\);", "let transport = self.get_inner();", "the closure's handle is the caller's"),
    (r"async move \{", "{", "async text read sequentially: an async block is its body"),
    (r"\s*\.await\b", "", "async text read sequentially: .await dropped"),
    (r"while let Some\((?:mut )?(\w+)\) = ([^{]*?) \{", r"loop { let o_ = \2; if o_.is_none() { break; } let \1 = o_.unwrap();", "while let Some(x) = e as a loop that breaks on None"),
    (r"try_opt!\(((?:[^()]|\((?:[^()]|\([^()]*\))*\))*)\)", r"\1?", "try_opt!(e) is e?"),
    (r"io::Error::from\(\s*ErrorKind::(\w+),?\s*\)", r"io::Error::from(io::ErrorKind::\1)", "path of ErrorKind"),
    (r"std::io::Error::from", "io::Error::from", "path of io::Error"),
    (r"(\w+) = (\w+)\.ok_or\(([^;]*?)\)(\?|;)", None, ""),
]
ASYNC += [(r"let mut h = None;", "let mut h: Option<ClickhouseTransport> = None;", "type annotation"), (r"let mut b = None;", "let mut b: Option<Block> = None;", "type annotation")]
ASYNC = [x for x in ASYNC if x[1] is not None]
NOASYNC = [(r"\basync fn", "fn", "async text read sequentially")]

SPEC = """
// ---- dependency and driver types that are only handed on ----
pub enum Poll<V> { Ready(V), Pending }
#[verifier::external_body] pub struct Cx { _p: () }                 // std::task::Context
#[verifier::external_body] pub fn new_cx() -> Cx { unimplemented!() }
#[derive(Clone, Copy)] pub struct Duration { pub ms: u64 }
impl Duration { pub fn from_secs(s: u64) -> Duration { Duration { ms: 0 } } }
pub fn sleep(d: Duration) { }
#[verifier::external_body] pub struct Query { _p: () }
impl Query { pub uninterp spec fn id(&self) -> int; }
impl Clone for Query { #[verifier::external_body] fn clone(&self) -> (r: Query) ensures r.id() == self.id() { unimplemented!() } }
#[verifier::external_body] pub struct ServerInfo { _p: () }
#[verifier::external_body] pub struct Progress { _p: () }
#[verifier::external_body] pub struct ProfileInfo { _p: () }
#[verifier::external_body] pub struct TableColumns { _p: () }
pub struct BlockV { pub id: int }
#[verifier::external_body] pub struct Block { _p: () }
pub uninterp spec fn blank(b: BlockV) -> bool;
pub uninterp spec fn cast_v(b: BlockV, dst: BlockV) -> BlockV;
pub uninterp spec fn chunks_v(b: BlockV, n: nat) -> Seq<BlockV>;
impl Block {
    pub uninterp spec fn v(&self) -> BlockV;
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == blank(self.v()) { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: Block) ensures blank(r.v()) { unimplemented!() }
    // (what cast_to and chunks do: see the blocks unit)
    #[verifier::external_body] pub fn cast_to(&self, dst: &Block) -> (r: Result<Block>) ensures r matches Ok(b) ==> b.v() == cast_v(self.v(), dst.v()) { unimplemented!() }
    #[verifier::external_body] pub fn chunks(&self, n: usize) -> (r: ChunkIterator) ensures r.left() == chunks_v(self.v(), n as nat), r.left().len() > 0 { unimplemented!() }
}
#[verifier::external_body] pub struct ChunkIterator { _p: () }
impl ChunkIterator {
    pub uninterp spec fn left(&self) -> Seq<BlockV>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Block>)
        ensures match r { Some(b) => old(self).left().len() > 0 && b.v() == old(self).left()[0] && final(self).left() == old(self).left().skip(1), None => old(self).left().len() == 0 && final(self).left().len() == 0 } { unimplemented!() }
}
pub struct Options { pub ping_timeout: Duration, pub ping_before_query: bool, pub send_retries: usize, pub retry_timeout: Duration, pub execute_timeout: Option<Duration>, pub insert_timeout: Option<Duration>, pub query_timeout: Duration }
#[verifier::external_body] pub struct OptionsSource { _p: () }
impl OptionsSource { pub uninterp spec fn opts(&self) -> Options; #[verifier::external_body] pub fn get(&self) -> (r: Result<Options>) ensures r matches Ok(o) ==> o == self.opts() { unimplemented!() } }
impl Clone for OptionsSource { #[verifier::external_body] fn clone(&self) -> (r: OptionsSource) ensures r == *self { unimplemented!() } }
pub struct Context { pub server_info: ServerInfo, pub options: OptionsSource }
impl Clone for Context { #[verifier::external_body] fn clone(&self) -> (r: Context) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn secs0(o: Option<Duration>) -> Duration { unimplemented!() }

pub assume_specification<T> [core::mem::replace] (d: &mut T, v: T) -> (r: T) ensures r == *old(d), *final(d) == v;
#[verifier::external_body] pub struct Table { _p: () }
pub uninterp spec fn insert_of(q: int, t: Table, b: BlockV) -> bool;   // q is the INSERT into t of the columns of b
#[verifier::external_body] pub fn make_query(t: Table, b: &Block) -> (r: Result<Query>) ensures r matches Ok(q) ==> insert_of(q.id(), t, b.v()) { unimplemented!() }
// ---- the conversation on a connection ----
pub enum Kind { Hello, Ping, Query(int), Data(BlockV), Cancel }
pub enum Got { Hello, Pong, Progress, Profile, Columns, Exception, Block(BlockV), Eof }
pub enum Ev { Ask(Kind), Got(Got) }
// what is still to be answered after the conversation h: None: the server has said something it was not asked
pub open spec fn owed(h: Seq<Ev>) -> Option<Seq<Kind>> decreases h.len() {
    if h.len() == 0 { Some(Seq::empty()) } else {
        match (owed(h.drop_last()), h.last()) {
            (None, _) => None,
            (Some(q), Ev::Ask(k)) => match k { Kind::Data(_) | Kind::Cancel => Some(q), _ => Some(q.push(k)) },
            (Some(q), Ev::Got(g)) => if q.len() == 0 { None } else { match (q[0], g) {
                (Kind::Hello, Got::Hello) => Some(q.skip(1)), (Kind::Ping, Got::Pong) => Some(q.skip(1)), (Kind::Query(_), Got::Eof) => Some(q.skip(1)),
                (Kind::Query(_), Got::Block(_)) | (Kind::Query(_), Got::Progress) | (Kind::Query(_), Got::Profile) | (Kind::Query(_), Got::Columns) => Some(q),
                _ => None,
            } },
        }
    }
}
pub open spec fn quiet(h: Seq<Ev>) -> bool { owed(h) == Some(Seq::<Kind>::empty()) }
pub open spec fn in_query(h: Seq<Ev>) -> bool { owed(h) matches Some(q) && q.len() == 1 && q[0] is Query }
pub open spec fn asks(h: Seq<Ev>, c: Cmd) -> Seq<Ev> decreases c {
    match c { Cmd::Hello(_) => h.push(Ev::Ask(Kind::Hello)), Cmd::Ping => h.push(Ev::Ask(Kind::Ping)), Cmd::SendQuery(q, _) => h.push(Ev::Ask(Kind::Query(q.id()))),
        Cmd::SendData(b, _) => h.push(Ev::Ask(Kind::Data(b.v()))), Cmd::Union(a, b) => asks(asks(h, *a), *b), Cmd::Cancel => h.push(Ev::Ask(Kind::Cancel)) }
}
pub open spec fn kind<S>(p: Packet<S>) -> Got {
    match p { Packet::Hello(..) => Got::Hello, Packet::Pong(_) => Got::Pong, Packet::Progress(_) => Got::Progress, Packet::ProfileInfo(_) => Got::Profile, Packet::TableColumns(_) => Got::Columns,
        Packet::Exception(_) => Got::Exception, Packet::Block(b) => Got::Block(b.v()), Packet::Eof(_) => Got::Eof }
}
pub open spec fn carries<S>(p: Packet<S>) -> Option<S> { match p { Packet::Hello(t, _) => Some(t), Packet::Pong(t) => Some(t), Packet::Eof(t) => Some(t), _ => None } }
// h is g and then answers that leave a query open
pub open spec fn grows(g: Seq<Ev>, h: Seq<Ev>) -> bool { g.len() <= h.len() && g =~= h.take(g.len() as int) && forall|i: int| g.len() <= i < h.len() ==> mid(#[trigger] h[i]) }
pub open spec fn mid(e: Ev) -> bool { e matches Ev::Got(g) && (g is Block || g is Progress || g is Profile || g is Columns) }
pub proof fn lemma_grows(g: Seq<Ev>, h: Seq<Ev>, e: Ev) requires grows(g, h), mid(e) ensures grows(g, h.push(e)), in_query(h) ==> owed(h.push(e)) == owed(h)
{ assert(h.push(e).drop_last() =~= h); assert(h.push(e).take(g.len() as int) =~= g); }
pub proof fn lemma_ev(h: Seq<Ev>, e: Ev) ensures h.push(e).drop_last() =~= h, h.push(e).last() == e {}
pub broadcast proof fn lemma_step(h: Seq<Ev>, e: Ev) ensures (#[trigger] h.push(e)).drop_last() == h, h.push(e).last() == e, (owed(h) matches Some(q) ==> (q.len() == 1 ==> q.skip(1) == Seq::<Kind>::empty())),
    owed(h.push(e)) == match (owed(h), e) {
            (None, _) => None,
            (Some(q), Ev::Ask(k)) => match k { Kind::Data(_) | Kind::Cancel => Some(q), _ => Some(q.push(k)) },
            (Some(q), Ev::Got(g)) => if q.len() == 0 { None } else { match (q[0], g) {
                (Kind::Hello, Got::Hello) => Some(q.skip(1)), (Kind::Ping, Got::Pong) => Some(q.skip(1)), (Kind::Query(_), Got::Eof) => Some(q.skip(1)),
                (Kind::Query(_), Got::Block(_)) | (Kind::Query(_), Got::Progress) | (Kind::Query(_), Got::Profile) | (Kind::Query(_), Got::Columns) => Some(q),
                _ => None,
            } },
        }
{ assert(h.push(e).drop_last() =~= h); if owed(h) is Some && owed(h)->Some_0.len() == 1 { assert(owed(h)->Some_0.skip(1) =~= Seq::<Kind>::empty()); } }
pub proof fn lemma_one(q: Seq<Kind>, k: Kind) ensures Seq::<Kind>::empty().push(k).skip(1) =~= Seq::<Kind>::empty(), q.len() == 1 ==> q.skip(1) =~= Seq::<Kind>::empty() {}
// the query of id q was asked as the event k of h, and answered to its end, which is the last event of h
pub open spec fn ran(h: Seq<Ev>, k: int, q: int) -> bool { 0 <= k < h.len() - 1 && h[k] == Ev::Ask(Kind::Query(q)) && h.last() == Ev::Got(Got::Eof) && forall|i: int| k < i < h.len() - 1 ==> mid(#[trigger] h[i]) }
pub open spec fn ran_query(h: Seq<Ev>, q: int) -> bool { exists|k: int| ran(h, k, q) }
// blocks that were sent: those with rows, in order
pub open spec fn sent(h: Seq<Ev>) -> Seq<BlockV> decreases h.len() {
    if h.len() == 0 { Seq::empty() } else { match h.last() { Ev::Ask(Kind::Data(b)) => if blank(b) { sent(h.drop_last()) } else { sent(h.drop_last()).push(b) }, _ => sent(h.drop_last()) } } }
pub open spec fn filled(s: Seq<BlockV>) -> Seq<BlockV> decreases s.len() { if s.len() == 0 { s } else if blank(s[0]) { filled(s.skip(1)) } else { seq![s[0]] + filled(s.skip(1)) } }
pub proof fn lemma_sent_mid(g: Seq<Ev>, h: Seq<Ev>) requires grows(g, h) ensures sent(h) == sent(g) decreases h.len()
{ if h.len() > g.len() { let d = h.drop_last(); assert(mid(h[h.len() - 1])); assert(d.take(g.len() as int) =~= g); assert forall|i: int| g.len() <= i < d.len() implies mid(#[trigger] d[i]) by { assert(mid(h[i])); } lemma_sent_mid(g, d); } else { assert(h =~= g); } }

pub open spec fn extends(g: Seq<Ev>, h: Seq<Ev>) -> bool { g.len() <= h.len() && h.take(g.len() as int) =~= g }
pub proof fn lemma_extends(a: Seq<Ev>, b: Seq<Ev>, c: Seq<Ev>) requires extends(a, b), extends(b, c) ensures extends(a, c) { assert(c.take(a.len() as int) =~= b.take(a.len() as int)); }
// every query asked in h after g is the query q
pub open spec fn only(g: Seq<Ev>, h: Seq<Ev>, q: int) -> bool { forall|i: int| g.len() <= i < h.len() ==> (#[trigger] h[i] matches Ev::Ask(Kind::Query(x)) ==> x == q) }
pub proof fn lemma_only(a: Seq<Ev>, b: Seq<Ev>, c: Seq<Ev>, q: int) requires extends(b, c), only(a, b, q), only(b, c, q), a.len() <= b.len() ensures only(a, c, q)
{ assert forall|i: int| a.len() <= i < c.len() implies (#[trigger] c[i] matches Ev::Ask(Kind::Query(x)) ==> x == q) by { if i < b.len() { assert(c[i] == c.take(b.len() as int)[i]); assert(c[i] == b[i]); } } }
// after g the query q was asked and answered with a header (the last event of x); then the rows of b, cast to that header and
// cut into chunks, were sent, each chunk with the query q (g, x, h: the conversation before, then, and at the end)
pub open spec fn stored_from(g: Seq<Ev>, x: Seq<Ev>, h: Seq<Ev>, dst: BlockV, q: int, b: BlockV) -> bool {
    &&& quiet(g) && grows(g.push(Ev::Ask(Kind::Query(q))), x) && x.len() > g.len() + 1 && x.last() == Ev::Got(Got::Block(dst)) && extends(x, h) && only(g, h, q)
    &&& sent(h) == sent(g) + filled(chunks_v(cast_v(b, dst), INSERT_BLOCK_SIZE as nat))
}
// the parts of an insert put together: header x, first chunk y, the others h
pub proof fn lemma_stored(g: Seq<Ev>, x: Seq<Ev>, y: Seq<Ev>, h: Seq<Ev>, dst: BlockV, q: int, b: BlockV)
    requires quiet(g), grows(g.push(Ev::Ask(Kind::Query(q))), x), x.len() > g.len() + 1, x.last() == Ev::Got(Got::Block(dst)), sent(x) == sent(g), only(g, x, q), no_query(x, y), extends(x, y), extends(y, h), only(y, h, q),
        ({ let cs = chunks_v(cast_v(b, dst), INSERT_BLOCK_SIZE as nat); cs.len() > 0 && sent(y) == sent(x) + filled(seq![cs[0]]) && sent(h) == sent(y) + filled(cs.skip(1)) })
    ensures stored(h, q, b)
{
    let cs = chunks_v(cast_v(b, dst), INSERT_BLOCK_SIZE as nat);
    lemma_extends(x, y, h); lemma_only_none(g, x, y, q); lemma_extends(g, x, y); lemma_only(g, y, h, q);
    reveal_with_fuel(filled, 2); assert(seq![cs[0]].skip(1) =~= Seq::<BlockV>::empty());
    assert(sent(h) =~= sent(g) + filled(cs));
    assert(stored_from(g, x, h, dst, q, b));
}
pub proof fn lemma_only_none(a: Seq<Ev>, b: Seq<Ev>, c: Seq<Ev>, q: int) requires extends(b, c), only(a, b, q), no_query(b, c), a.len() <= b.len() ensures only(a, c, q)
{ assert forall|i: int| a.len() <= i < c.len() implies (#[trigger] c[i] matches Ev::Ask(Kind::Query(x)) ==> x == q) by { if i < b.len() { assert(c[i] == c.take(b.len() as int)[i]); assert(c[i] == b[i]); } } }
pub open spec fn stored(h: Seq<Ev>, q: int, b: BlockV) -> bool { exists|g: Seq<Ev>, x: Seq<Ev>, dst: BlockV| stored_from(g, x, h, dst, q, b) }
pub proof fn lemma_grows_only(g: Seq<Ev>, h: Seq<Ev>, q: int) requires grows(g, h) ensures only(g, h, q) { assert forall|i: int| g.len() <= i < h.len() implies (#[trigger] h[i] matches Ev::Ask(Kind::Query(x)) ==> x == q) by { assert(mid(h[i])); } }
pub proof fn lemma_sent_push(h: Seq<Ev>, e: Ev) ensures sent(h.push(e)) == match e { Ev::Ask(Kind::Data(b)) => if blank(b) { sent(h) } else { sent(h).push(b) }, _ => sent(h) } { assert(h.push(e).drop_last() =~= h); }
pub proof fn lemma_filled_push(s: Seq<BlockV>, b: BlockV) ensures filled(s.push(b)) == filled(s) + filled(seq![b]) decreases s.len()
{
    reveal_with_fuel(filled, 3); assert(seq![b].skip(1) =~= Seq::<BlockV>::empty());
    if s.len() == 0 { assert(s.push(b) =~= seq![b]); assert(filled(s) + filled(seq![b]) =~= filled(seq![b])); }
    else { assert(s.push(b).skip(1) =~= s.skip(1).push(b)); lemma_filled_push(s.skip(1), b); assert(filled(s.push(b)) =~= filled(s) + filled(seq![b])); }
}
// sending a block of an insert and reading the answer to its end
pub open spec fn put_block(h0: Seq<Ev>, b: BlockV, d: BlockV) -> Seq<Ev> { if blank(b) { h0.push(Ev::Ask(Kind::Data(d))) } else { h0.push(Ev::Ask(Kind::Data(b))).push(Ev::Ask(Kind::Data(d))) } }
pub open spec fn last_data(c: Cmd) -> BlockV decreases c { match c { Cmd::SendData(b, _) => b.v(), Cmd::Union(_, b) => last_data(*b), _ => arbitrary() } }
pub open spec fn no_query(g: Seq<Ev>, h: Seq<Ev>) -> bool { forall|i: int| g.len() <= i < h.len() ==> !(#[trigger] h[i] matches Ev::Ask(Kind::Query(_))) }
// h0, then the block b, the marker that ends the data, and an answer up to its end
pub open spec fn inserted(h0: Seq<Ev>, b: BlockV, h: Seq<Ev>) -> bool { h.len() > 0 && h.last() == Ev::Got(Got::Eof) && exists|d: BlockV| blank(d) && grows(#[trigger] put_block(h0, b, d), h.drop_last()) }
pub proof fn lemma_inserted(h0: Seq<Ev>, h1: Seq<Ev>, h2: Seq<Ev>, b: BlockV, d: BlockV)
    requires blank(d), h1 == put_block(h0, b, d), h2.len() > 0, h2.last() == Ev::Got(Got::Eof), grows(h1, h2.drop_last())
    ensures inserted(h0, b, h2), extends(h0, h2), no_query(h0, h2), sent(h2) == sent(h0) + filled(seq![b])
{
    lemma_sent_mid(h1, h2.drop_last()); assert(h2.drop_last().push(h2.last()) =~= h2); lemma_sent_push(h2.drop_last(), h2.last());
    lemma_sent_push(h0, Ev::Ask(Kind::Data(d))); lemma_sent_push(h0, Ev::Ask(Kind::Data(b))); lemma_sent_push(h0.push(Ev::Ask(Kind::Data(b))), Ev::Ask(Kind::Data(d)));
    reveal_with_fuel(filled, 3); assert(seq![b].skip(1) =~= Seq::<BlockV>::empty()); assert(seq![b] + Seq::<BlockV>::empty() =~= seq![b]); assert(sent(h0) + seq![b] =~= sent(h0).push(b)); assert(sent(h0) + Seq::<BlockV>::empty() =~= sent(h0));
    assert(h2.take(h0.len() as int) =~= h2.drop_last().take(h1.len() as int).take(h0.len() as int));
    assert(h1.take(h0.len() as int) =~= h0);
    assert forall|i: int| h0.len() <= i < h2.len() implies !(#[trigger] h2[i] matches Ev::Ask(Kind::Query(_))) by { if i < h1.len() { assert(h2[i] == h2.drop_last().take(h1.len() as int)[i]); } else if i < h2.len() - 1 { assert(mid(h2.drop_last()[i])); } }
}

#[verifier::external_body] pub struct InnerStream { _p: () }
#[verifier::external_body] pub struct TransportInfo { _p: () }
#[verifier::external_body] pub struct TransportStatus { _p: () }
// VecDeque<Cmd>: the requests that are queued; here with the whole conversation so far (a ghost)
#[verifier::external_body] pub struct Cmds { _p: () }
impl Cmds {
    pub uninterp spec fn h(&self) -> Seq<Ev>;
    #[verifier::external_body] pub fn push_back(&mut self, c: Cmd) ensures final(self).h() == asks(old(self).h(), c) { unimplemented!() }
}
"""

STREAMS = """
impl ClickhouseTransport {
    pub open spec fn h(&self) -> Seq<Ev> { self.cmds.h() }
    // sending what is queued, and reading the next packet: contracts of the packets unit
    #[verifier::external_body] pub fn send(&mut self, cx: &mut Cx) -> (r: Poll<Result<()>>) ensures final(self).h() == old(self).h(), final(self).inconsistent == old(self).inconsistent { unimplemented!() }
    #[verifier::external_body] pub fn poll_next(&mut self, cx: &mut Cx) -> (r: Poll<Option<io::Result<Packet<()>>>>)
        ensures final(self).inconsistent == old(self).inconsistent,
            final(self).h() == match r { Poll::Ready(Some(Ok(p))) => old(self).h().push(Ev::Got(kind(p))), _ => old(self).h() } { unimplemented!() }
}
// a connection that may be used again: it owes nothing, or an abandoned query and knows it
pub open spec fn sound(t: ClickhouseTransport) -> bool { if t.inconsistent { in_query(t.h()) } else { quiet(t.h()) } }
impl PacketStream {
    pub open spec fn inv(&self) -> bool { match self.state { PacketStreamState::Yield(b) => *b is None, PacketStreamState::Done => self.inner is None || self.read_block, _ => true } }
    pub open spec fn now(&self) -> Option<Seq<Ev>> { match self.inner { Some(t) => Some(t.h()), None => None } }
    pub open spec fn flag(&self) -> bool { self.inner matches Some(t) && t.inconsistent }
}
// what one packet of a stream is, given the stream before (o) and after (n)
pub open spec fn steps(o: PacketStream, n: PacketStream, p: Packet<ClickhouseTransport>) -> bool {
    &&& o.inner is Some
    &&& match carries(p) {
        Some(t) => n.inner is None && t.inconsistent == o.inner->Some_0.inconsistent && if o.state is Done { p is Eof && t.h() == o.inner->Some_0.h() } else { t.h() == o.inner->Some_0.h().push(Ev::Got(kind(p))) },
        None => !(o.state is Done) && n.inner is Some && n.flag() == o.flag() && n.inner->Some_0.h() == o.inner->Some_0.h().push(Ev::Got(kind(p))) && ((n.state is Done) == (n.read_block && p is Block)),
    }
}
pub open spec fn same_end(o: PacketStream, n: PacketStream) -> bool { n.now() == o.now() && n.flag() == o.flag() && (n.state is Done ==> o.state is Done || n.inner is None) && (o.state is Done ==> n.state is Done) }
"""

HANDLE = """
impl PoolBinding { pub open spec fn pool(self) -> Option<Pool> { match self { PoolBinding::None => None, PoolBinding::Attached(p) => Some(p), PoolBinding::Detached(p) => Some(p) } } }
#[verifier::external_body] pub struct Pool { _p: () }
impl Clone for Pool { #[verifier::external_body] fn clone(&self) -> (r: Pool) ensures r == *self { unimplemented!() } }
impl Clone for PoolBinding { #[verifier::external_body] fn clone(&self) -> (r: PoolBinding) ensures r == *self { unimplemented!() } }
pub fn opt_pool(p: &Option<Pool>) -> (r: Option<Pool>) ensures r == *p { match p { Some(x) => Some(x.clone()), None => None } }
impl Pool {
    // a handle of the pool (see the pool unit): connected, or returned by someone else
    #[verifier::external_body] pub fn get_handle(&self) -> (r: Result<ClientHandle>) ensures r matches Ok(h) ==> h.wf() { unimplemented!() }
}
pub struct Client;
impl Client { #[verifier::external_body] pub fn open(source: OptionsSource, pool: Option<Pool>) -> (r: Result<ClientHandle>) ensures r matches Ok(h) ==> h.wf() { unimplemented!() } }
impl ClientHandle {
    // a connection the handle holds may be used; while one is in use by a call, the handle does not hold it
    pub open spec fn wf(&self) -> bool { self.inner matches Some(t) ==> sound(t) }
    pub open spec fn idle(&self) -> bool { self.inner matches Some(t) && !t.inconsistent && quiet(t.h()) }
}
// the attempts one retry_guard makes (a ghost record, threaded through it)
pub enum At { Check(bool), Connect(bool) }
#[verifier::external_body] pub struct Attempts { _p: () }
impl Attempts {
    pub uninterp spec fn log(&self) -> Seq<At>;
    #[verifier::external_body] pub fn none_() -> (r: Attempts) ensures r.log().len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn checked(&mut self, r: Result<()>) -> (s: Result<()>) ensures s == r, final(self).log() == old(self).log().push(At::Check(r is Ok)) { unimplemented!() }
    #[verifier::external_body] pub fn connected(&mut self, r: Result<()>) -> (s: Result<()>) ensures s == r, final(self).log() == old(self).log().push(At::Connect(r is Ok)) { unimplemented!() }
}
pub open spec fn connects(l: Seq<At>) -> nat decreases l.len() { if l.len() == 0 { 0 } else { connects(l.drop_last()) + if l.last() is Connect { 1nat } else { 0nat } } }
pub broadcast proof fn lemma_connects(l: Seq<At>, a: At) ensures (#[trigger] l.push(a)).drop_last() == l, connects(l.push(a)) == connects(l) + if a is Connect { 1nat } else { 0nat } { assert(l.push(a).drop_last() =~= l); }
pub open spec fn no_success(l: Seq<At>) -> bool { forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] != At::Check(true) }
// what a bounded retry does: the connection it ends with has answered; it gives up only when its attempts are used up
pub open spec fn retried(l: Seq<At>, max: nat, ok: bool) -> bool {
    &&& l.len() > 0 && l[0] is Check && no_success(l.drop_last())
    &&& connects(l) <= max + 1 && (max == 0 ==> connects(l) == 0) && (l[0] == At::Check(true) ==> connects(l) == 0)
    &&& if ok { l.last() == At::Check(true) } else { connects(l) >= max && (l.last() == At::Check(false) || l.last() == At::Connect(false)) }
}
"""

BS = """
#[verifier::external_body] pub fn count_add(a: usize, b: usize) -> (r: usize) ensures r == a + b { unimplemented!() }
impl BlockStream {
    pub open spec fn inv(&self) -> bool {
        self.inner.inv() && !self.inner.read_block && match self.state {
            BlockStreamState::Reading => self.client.inner is None && self.inner.inner is Some && !(self.inner.state is Done) && !self.inner.flag() && in_query(self.inner.inner->Some_0.h()) && self.block_index == blocks_of(self.inner.inner->Some_0.h()).len(),
            BlockStreamState::Finished => self.client.inner is None || self.client.idle(),
            BlockStreamState::Error => self.client.inner is None,
        }
    }
    // the rows read so far
    pub open spec fn seen(&self) -> Seq<BlockV> { shown(blocks_of(self.inner.inner->Some_0.h()), self.skip_first_block) }
}
pub open spec fn asked_only(h: Seq<Ev>, q: int) -> bool { h.len() > 0 && h.last() == Ev::Ask(Kind::Query(q)) && quiet(h.drop_last()) }
// what one poll of a result does
pub open spec fn streams(o: BlockStream, n: BlockStream, r: Poll<Option<Result<Block>>>) -> bool {
    &&& n.skip_first_block == o.skip_first_block && n.client.pool.pool() == o.client.pool.pool()
    &&& match o.state {
        BlockStreamState::Finished => r == Poll::<Option<Result<Block>>>::Ready(None) && n == o,
        BlockStreamState::Error => r matches Poll::Ready(Some(Err(_))) && n == o,
        BlockStreamState::Reading => match r {
            Poll::Ready(Some(Ok(b))) => n.state is Reading && n.seen() == o.seen().push(b.v()),
            Poll::Pending => n.state is Reading && n.seen() == o.seen(),
            // the end of the result: the connection is free again, and nothing that has rows was left out
            Poll::Ready(None) => n.state is Finished && n.client.idle() && !(n.client.pool is Detached) && n.client.inner->Some_0.h().last() == Ev::Got(Got::Eof)
                && shown(blocks_of(n.client.inner->Some_0.h()), o.skip_first_block) == o.seen(),
            // an error: the connection is not used again
            Poll::Ready(Some(Err(_))) => !(n.state is Reading) && n.client.inner is None,
        },
    }
}
// blocks the server has sent since the last request
pub open spec fn blocks_of(h: Seq<Ev>) -> Seq<BlockV> decreases h.len() {
    if h.len() == 0 { Seq::empty() } else { match h.last() { Ev::Ask(_) => Seq::empty(), Ev::Got(Got::Block(b)) => blocks_of(h.drop_last()).push(b), _ => blocks_of(h.drop_last()) } } }
// those of them a caller sees: the ones with rows, without the header if it is to be left out
pub open spec fn shown(bs: Seq<BlockV>, skip: bool) -> Seq<BlockV> decreases bs.len() {
    if bs.len() == 0 { bs } else if (bs.len() > 1 || !skip) && !blank(bs.last()) { shown(bs.drop_last(), skip).push(bs.last()) } else { shown(bs.drop_last(), skip) } }
pub broadcast proof fn lemma_blocks(h: Seq<Ev>, e: Ev) ensures #[trigger] blocks_of(h.push(e)) == match e { Ev::Ask(_) => Seq::empty(), Ev::Got(Got::Block(b)) => blocks_of(h).push(b), _ => blocks_of(h) } { assert(h.push(e).drop_last() =~= h); }
pub broadcast proof fn lemma_shown(bs: Seq<BlockV>, b: BlockV, skip: bool) ensures #[trigger] shown(bs.push(b), skip) == (if (bs.len() > 0 || !skip) && !blank(b) { shown(bs, skip).push(b) } else { shown(bs, skip) }) { assert(bs.push(b).drop_last() =~= bs); }
"""


def build():
    from rsx import Unit
    u = Unit("session", rewrites=ASYNC + C.COMMON_RW)
    u.text(C.HEADER + "verus! {\nglobal size_of usize == 8;\n")
    C.errors(u)
    u.text(SPEC)
    u.item(CM, "enum Cmd", rewrites=[(r"(?<!pub )enum", "pub enum", "")])
    u.item(TY, "enum Packet")
    u.item(T, "struct ClickhouseTransport", rewrites=[(r"io::Cursor<Vec<u8>>", "Vec<u8>", "position of the write cursor dropped (packets unit)"), (r"VecDeque<Cmd>", "Cmds", "queue with a ghost record of the conversation"), (r"Arc<TransportStatus>", "TransportStatus", "shared status only handed on"),
                                                      K.PUBF])
    u.item(T, "enum PacketStreamState", rewrites=[(r"(?<!pub )enum", "pub enum", "")])
    u.item(T, "struct PacketStream", rewrites=[K.PUBF])
    u.text(STREAMS)
    u.text("impl<S> Packet<S> {")
    u.fn(TY, "impl ^impl<S> Packet<S>$", "fn bind", vis="pub", rewrites=[(r"transport\.take\(\)\.unwrap\(\)", "opt_take(transport)", "Option::take().unwrap() through a stub with its contract")],
         spec="""requires carries(self) is Some ==> *old(transport) is Some
        ensures kind(r) == kind(self), match carries(self) { Some(_) => carries(r) == *old(transport) && *final(transport) is None, None => carries(r) is None && *final(transport) == *old(transport) }""")
    u.text("""}
#[verifier::external_body] pub fn opt_take<N>(o: &mut Option<N>) -> (r: N) requires *old(o) is Some ensures *old(o) == Some(r), *final(o) is None { unimplemented!() }
impl PacketStream {""")
    u.fn(T, "impl ^impl Stream for PacketStream$", "fn poll_next", vis="pub", attrs="#[verifier::exec_allows_no_decreases_clause]",
         sig=[(r"mut self: Pin<&mut Self>", "&mut self", "Pin"), (r"task::Context", "Cx", ""), (r"Self::Item", "io::Result<Packet<ClickhouseTransport>>", "associated type written out")],
         rewrites=[(r"Pin::new\((\w+)\)\.poll_next", r"\1.poll_next", "Pin"), (r"return Poll::Ready\(Some\(Err\(e\.into\(\)\)\)\)", "return Poll::Ready(Some(Err(io_of(e))))", "Into<io::Error> by name")],
         spec="""requires old(self).inv()
        ensures final(self).inv(), final(self).read_block == old(self).read_block,
            match r { Poll::Ready(Some(Ok(p))) => steps(*old(self), *final(self), p), _ => same_end(*old(self), *final(self)) }""",
         loops=[dict(head=r"^loop$", spec="invariant self.inv(), self.read_block == old(self).read_block, same_end(*old(self), *self)")])
    u.fn(T, "impl ^impl PacketStream$", "fn take_transport", vis="pub", spec="ensures r == old(self).inner, final(self).inner is None, final(self).read_block == old(self).read_block, final(self).state == old(self).state")
    u.text("}")
    u.fn(T, "fn is_block", vis="pub", spec="ensures r == (*packet matches Some(p) && p is Block)")
    u.text("""impl PacketStream {
    // StreamExt::next().await: polls until there is an answer
    #[verifier::exec_allows_no_decreases_clause]
    pub fn next(&mut self) -> (r: Option<io::Result<Packet<ClickhouseTransport>>>)
        requires old(self).inv()
        ensures final(self).inv(), final(self).read_block == old(self).read_block, match r { Some(Ok(p)) => steps(*old(self), *final(self), p), _ => same_end(*old(self), *final(self)) }
    {
        let mut cx = new_cx();
        loop invariant self.inv(), self.read_block == old(self).read_block, same_end(*old(self), *self) { match self.poll_next(&mut cx) { Poll::Ready(x) => { return x; } Poll::Pending => {} } }
    }""")
    u.fn(T, "impl ^impl PacketStream$", "fn read_block", vis="pub", sig=NOASYNC + [(r"mut self", "self", "")], attrs="#[verifier::exec_allows_no_decreases_clause]",
         hints=[("start", "", "let mut self_ = self; let ghost g = self.inner->Some_0.h(); broadcast use lemma_step;"), ("before", r"match package \{", "proof { if package is Ok && self_.inner is Some && mid(Ev::Got(kind(package->Ok_0))) { lemma_grows(g, was, Ev::Got(kind(package->Ok_0))); } } ")],
         rewrites=[(r"\bself\b", "self_", "a by-value self that is changed")],
         spec="""requires self.inv(), !(self.state is Done), self.inner matches Some(t) && in_query(t.h()) && !t.inconsistent
        ensures r matches Ok(x) ==> !x.0.inconsistent && match x.1 {
            Some(b) => in_query(x.0.h()) && owed(x.0.h()) == owed(self.inner->Some_0.h()) && grows(self.inner->Some_0.h(), x.0.h()) && x.0.h().last() == Ev::Got(Got::Block(b.v())) && x.0.h().len() > self.inner->Some_0.h().len(),
            None => x.0.h().len() > 0 && quiet(x.0.h()) && x.0.h().last() == Ev::Got(Got::Eof) && grows(self.inner->Some_0.h(), x.0.h().drop_last()) }""",
         loops=[dict(head=r"^loop$", spec="""invariant self_.inv(), self_.read_block, in_query(g),
                (self_.inner matches Some(t) && grows(g, t.h()) && in_query(t.h()) && owed(t.h()) == owed(g) && !t.inconsistent && h is None && if self_.state is Done { b matches Some(x) && t.h().last() == Ev::Got(Got::Block(x.v())) && t.h().len() > g.len() } else { b is None })
                || (self_.inner is None && (h matches Some(t) && !t.inconsistent && match b { Some(x) => in_query(t.h()) && owed(t.h()) == owed(g) && grows(g, t.h()) && t.h().last() == Ev::Got(Got::Block(x.v())) && t.h().len() > g.len(), None => t.h().len() > 0 && quiet(t.h()) && t.h().last() == Ev::Got(Got::Eof) && grows(g, t.h().drop_last()) }))""",
                     start="broadcast use lemma_step; let ghost was = if self_.inner is Some { self_.inner->Some_0.h() } else { g };")])
    u.text("}\nimpl ClickhouseTransport {")
    u.fn(T, "impl ^impl ClickhouseTransport$", "fn call", vis="pub", rewrites=[(r"\bself\b", "self_", "a by-value self that is changed")], sig=[(r"mut self", "self", "")], hints=[("start", "", "let mut self_ = self;")],
         spec="ensures r.inv(), r.state is Ask, !r.read_block, r.inner matches Some(t) && t.h() == asks(self.h(), req) && t.inconsistent == self.inconsistent")
    u.fn(T, "impl ^impl ClickhouseTransport$", "fn clear", vis="pub", sig=NOASYNC, attrs="#[verifier::exec_allows_no_decreases_clause]",
         spec="requires sound(self) ensures r matches Ok(t) ==> !t.inconsistent && quiet(t.h())",
         hints=[("start", "", "broadcast use lemma_step;")],
         loops=[dict(head=r"^loop$", spec="invariant stream.inv(), !stream.read_block, !(stream.state is Done) || stream.inner is None, stream.inner matches Some(t) ==> h is None && t.inconsistent, h matches Some(t) ==> stream.inner is None && quiet(t.h()), stream.inner matches Some(t) ==> in_query(t.h())", start="broadcast use lemma_step;")])
    u.text("}")
    u.text(HANDLE)
    u.item(PO, "enum PoolBinding")
    u.item("src/types/block/mod.rs", "const INSERT_BLOCK_SIZE", rewrites=[(r"(pub(\([^)]*\))? )?const", "pub const", "")])
    u.item(L, "struct ClientHandle", rewrites=[K.PUBF])
    u.text("""
#[verifier::external_body] pub fn io_of(e: Error) -> (r: io::Error) ensures r.k == io::ErrorKind::WouldBlock ==> is_would_block(e) { unimplemented!() }
impl PoolBinding {""")
    PB = (PO, "impl ^impl PoolBinding$")
    BRW = [(r"Pool::", "Pool::", "")]
    u.fn(*PB, "fn take", vis="pub", rewrites=[(r"\bmem::replace", "core::mem::replace", "path of mem::replace")], spec="ensures r == *old(self), *final(self) is None")
    u.fn(*PB, "fn is_attached", vis="pub", spec="ensures r == (*self is Attached)")
    u.fn(*PB, "fn is_some", vis="pub", spec="ensures r == self.pool() is Some")
    u.fn(*PB, "fn attach", vis="pub", spec="ensures final(self).pool() == old(self).pool(), !(*final(self) is Detached)")
    u.fn(*PB, "fn detach", vis="pub", spec="ensures final(self).pool() == old(self).pool(), !(*final(self) is Attached)")
    u.fn(PO, "impl ^impl From<PoolBinding> for Option<Pool>$", "fn from", vis="pub", rename="into_pool", sig=[(r"-> Self", "-> Option<Pool>", "Self written out")], spec="ensures r == binding.pool()")
    u.text("}\n// ---- retrying ----")
    RS = [(r"\basync fn", "fn", "async text read sequentially")]
    u.fn(RG, "fn check", vis="pub", sig=RS, spec="requires old(c).wf() ensures final(c).wf(), r is Ok ==> final(c).idle()")
    u.fn(RG, "fn reconnect", vis="pub", sig=RS, rewrites=[(r"\bmem::swap", "core::mem::swap", "path of mem::swap")], spec="requires old(c).wf() ensures final(c).wf()")
    u.fn(RG, "fn retry_guard", vis="pub", sig=RS + [(r"duration: Duration,?", "duration: Duration, att_: &mut Attempts", "a ghost record of the attempts threaded through")], attrs="#[verifier::exec_allows_no_decreases_clause]",
         rewrites=[(r"check\(handle\)", "att_.checked(check(handle))", "attempts recorded"), (r"reconnect\(handle, source, pool\.clone\(\)\)", "att_.connected(reconnect(handle, source, opt_pool(&pool)))", "attempts recorded"),
                   (r"tokio::time::sleep", "sleep", "the pause between attempts"), (r"attempt \+= 1;", "attempt = att_add(attempt);", "counter of attempts (bounded by the invariant)")],
         spec="requires old(handle).wf(), old(att_).log().len() == 0, max_attempt < usize::MAX ensures final(handle).wf(), r is Ok ==> final(handle).idle(), retried(final(att_).log(), max_attempt as nat, r is Ok)",
         hints=[("start", "", "broadcast use lemma_connects;")],
         loops=[dict(head=r"^loop$", spec="""invariant handle.wf(), max_attempt < usize::MAX, attempt <= max_attempt + 1, connects(att_.log()) == attempt, no_success(att_.log()), skip_check ==> attempt <= max_attempt,
            att_.log().len() > 0 ==> att_.log()[0] == At::Check(false), attempt == 0 ==> att_.log().len() == 0 && !skip_check, max_attempt == 0 ==> attempt == 0, attempt == max_attempt + 1 ==> !skip_check, attempt > 0 ==> att_.log().len() > 0,
            att_.log().len() > 0 ==> att_.log().last() is Connect""", start="broadcast use lemma_connects;")])
    u.text("pub fn att_add(a: usize) -> (r: usize) requires a < usize::MAX ensures r == a + 1 { a + 1 }\nimpl ClientHandle {")
    LH = (L, "impl ^impl ClientHandle$")
    CE = "requires old(self).wf() ensures final(self).wf(), final(self).pool.pool() == old(self).pool.pool() "
    u.fn(*LH, "fn get_inner", vis="pub", rewrites=[(r"self\.inner\s*\.take\(\)\s*\.ok_or_else\(\|\| ([^)]*\([^)]*\))\)", r"match self.inner.take() { Some(t) => Ok(t), None => Err(\1) }", "ok_or_else as a match")],
         spec="ensures r matches Ok(t) ==> old(self).inner == Some(t), final(self).inner is None, final(self).pool == old(self).pool, final(self).context == old(self).context")
    u.fn(*LH, "fn ping", vis="pub", sig=NOASYNC, attrs="#[verifier::exec_allows_no_decreases_clause]", spec="requires old(self).wf() ensures final(self).wf(), final(self).pool == old(self).pool, final(self).context == old(self).context, r is Ok ==> final(self).idle()",
         hints=[("start", "", "broadcast use lemma_step;")],
         loops=[dict(head=r"^loop$", spec="invariant self.inner is None, self.pool == old(self).pool, self.context == old(self).context, stream.inv(), !stream.read_block, !(stream.state is Done) || stream.inner is None, stream.inner matches Some(t) ==> h is None && !t.inconsistent && owed(t.h()) == Some(Seq::<Kind>::empty().push(Kind::Ping)), h matches Some(t) ==> stream.inner is None && !t.inconsistent && quiet(t.h())", start="broadcast use lemma_step;")])
    u.fn(*LH, "fn clear_inner", vis="pub", sig=NOASYNC, spec="requires old(self).wf() ensures final(self).wf(), r is Ok ==> final(self).idle()")
    u.fn(*LH, "fn check_connection", vis="pub", sig=NOASYNC + [(r"&mut self", "&mut self, att_: &mut Attempts", "a ghost record of the attempts threaded through")], spec="requires old(self).wf(), old(self).context.options.opts().send_retries < usize::MAX, old(att_).log().len() == 0 ensures final(self).wf(), final(att_).log().len() > 0 ==> retried(final(att_).log(), old(self).context.options.opts().send_retries as nat, r is Ok), r is Ok ==> final(att_).log().len() > 0, r is Ok ==> final(self).idle() && !(final(self).pool is Detached)",
         rewrites=[(r"pool\.into\(\)", "PoolBinding::into_pool(pool)", "Into by name"), (r"retry_guard\(([^;]*)\)\s*\.await\?", r"retry_guard(\1, att_)?", "attempts recorded")])
    u.fn(*LH, "fn wrap_future", vis="pub", rename="wrap_future_", sig=[(r"async fn", "fn", ""), (r"<T, R, F>", "", "the prepared call left out"), (r", f: F", "", ""), (r"Result<T>", "Result<()>", ""), (r"where.*", "", "")], rewrites=[(r"self\.check_connection\(\)", "self.check_connection(&mut Attempts::none_())", "attempts recorded"), (r"f\(self\)", "Ok(())", "wrap_future(f) read as its preparation followed by f")],
         keep_where=False, spec="requires old(self).wf(), old(self).context.options.opts().send_retries < usize::MAX ensures final(self).wf()")
    RUNQ = "requires old(self).wf(), old(self).context.options.opts().send_retries < usize::MAX "
    u.fn(*LH, "fn hello", vis="pub", sig=NOASYNC, attrs="#[verifier::exec_allows_no_decreases_clause]", rewrites=[(r"self\.inner\.take\(\)\.unwrap\(\)", "opt_take(&mut self.inner)", "Option::take().unwrap() through a stub with its contract"), (r"let mut info = None;", "let mut info: Option<ServerInfo> = None;", "type annotation")],
         spec="requires old(self).idle() ensures final(self).wf(), final(self).pool == old(self).pool, r is Ok ==> final(self).idle()",
         hints=[("start", "", "broadcast use lemma_step;")],
         loops=[dict(head=r"^loop$", spec="invariant self.inner is None, self.pool == old(self).pool, stream.inv(), !stream.read_block, !(stream.state is Done) || stream.inner is None, (info is None) == (h is None), stream.inner matches Some(t) ==> h is None && !t.inconsistent && owed(t.h()) == Some(Seq::<Kind>::empty().push(Kind::Hello)), h matches Some(t) ==> stream.inner is None && !t.inconsistent && quiet(t.h())", start="broadcast use lemma_step;")])
    u.fn(*LH, "fn execute_", vis="pub", sig=NOASYNC + [(r"<Q>", "", "the query as given"), (r"sql: Q", "sql: Query", "the query as given"), (r"where.*", "", "")], keep_where=False, attrs="#[verifier::exec_allows_no_decreases_clause]",
         rewrites=[(r"Query::from\(sql\)", "sql", "the query as given"), (r"\.execute_timeout\s*\.unwrap_or_else\(\|\| Duration::from_secs\(0\)\)", ".execute_timeout", "timeout value")],
         spec=RUNQ + "ensures r is Err ==> final(self).wf(), r matches Ok(t) ==> final(self).inner is None && !t.inconsistent && quiet(t.h()) && ran_query(t.h(), sql.id())",
         hints=[("start", "", "broadcast use lemma_step; let ghost qid = sql.id();"), ("after", r"stream = transport\.call\([^;]*;", "let ghost g = stream.inner->Some_0.h();")],
         loops=[dict(head=r"^loop$", spec="invariant self.inner is None, in_query(g), g.last() == Ev::Ask(Kind::Query(qid)), g.len() > 0, stream.inv(), !stream.read_block, !(stream.state is Done) || stream.inner is None, stream.inner matches Some(t) ==> h is None && !t.inconsistent && in_query(t.h()) && grows(g, t.h()), h matches Some(t) ==> stream.inner is None && !t.inconsistent && quiet(t.h()) && ran(t.h(), g.len() - 1, qid)",
                     start="broadcast use lemma_step; let ghost was = if stream.inner is Some { stream.inner->Some_0.h() } else { g };")])
    u.fn(*LH, "fn execute", vis="pub", sig=NOASYNC + [(r"<Q>", "", "the query as given"), (r"sql: Q", "sql: Query", "the query as given"), (r"where.*", "", "")], keep_where=False,
         spec=RUNQ + "ensures final(self).wf(), r is Ok ==> final(self).idle() && ran_query(final(self).inner->Some_0.h(), sql.id())")
    u.fn(*LH, "fn send_insert_query_", vis="pub", sig=NOASYNC,
         spec="""requires !transport.inconsistent, quiet(transport.h())
        ensures r matches Ok(x) ==> !x.0.inconsistent && in_query(x.0.h()) && grows(transport.h().push(Ev::Ask(Kind::Query(query.id()))), x.0.h()) && x.0.h().len() > transport.h().len() + 1 && x.0.h().last() == Ev::Got(Got::Block(x.1.v())) && extends(transport.h(), x.0.h()) && only(transport.h(), x.0.h(), query.id()) && sent(x.0.h()) == sent(transport.h())""",
         hints=[("start", "", "broadcast use lemma_step; let ghost h0 = transport.h();"), ("before", r"let dst_block", "proof { if b is Some { lemma_sent_mid(h0.push(Ev::Ask(Kind::Query(query.id()))), transport.h()); lemma_sent_push(h0, Ev::Ask(Kind::Query(query.id()))); assert(h0.push(Ev::Ask(Kind::Query(query.id()))).take(h0.len() as int) =~= h0); lemma_extends(h0, h0.push(Ev::Ask(Kind::Query(query.id()))), transport.h()); } }")],
         rewrites=[(r"stream\.read_block\(\)\.await\?", "stream.read_block()?", "")])
    u.fn(*LH, "fn insert_block_", vis="pub", sig=NOASYNC,
         spec="""requires !transport.inconsistent, in_query(transport.h())
        ensures r matches Ok(t) ==> !t.inconsistent && quiet(t.h()) && inserted(transport.h(), block.v(), t.h()) && no_query(transport.h(), t.h()) && extends(transport.h(), t.h()) && sent(t.h()) == sent(transport.h()) + filled(seq![block.v()])""",
         rewrites=[(r"match transport\.call\((\w+)\)\.read_block\(\)\.await\? \{", r"let ghost c_ = \1; let stream_ = transport.call(\1); let ghost h1 = stream_.inner->Some_0.h(); let res_ = stream_.read_block()?; proof { if res_.1 is None { lemma_inserted(h0, h1, res_.0.h(), bv, last_data(c_)); } } match res_ {", "the scrutinee bound to a name")],
         hints=[("start", "", "broadcast use lemma_step; let ghost h0 = transport.h(); let ghost bv = block.v(); proof { reveal_with_fuel(asks, 4); reveal_with_fuel(last_data, 4); reveal_with_fuel(filled, 3); assert(seq![bv].skip(1) =~= Seq::<BlockV>::empty()); }")])
    u.fn(*LH, "fn insert_tail_", vis="pub", sig=NOASYNC + [(r"mut transport", "transport0", "a by-value parameter that is changed"), (r"ChunkIterator<Simple>", "ChunkIterator", "")], attrs="#[verifier::exec_allows_no_decreases_clause]",
         rewrites=[(r"for chunk in chunks \{", "let mut chunks = chunks; loop { let o_ = chunks.next(); if o_.is_none() { break; } let chunk = o_.unwrap();", "for loop over an iterator written out")],
         spec="""requires !transport0.inconsistent, quiet(transport0.h())
        ensures r matches Ok(t) ==> !t.inconsistent && quiet(t.h()) && extends(transport0.h(), t.h()) && only(transport0.h(), t.h(), query.id()) && sent(t.h()) == sent(transport0.h()) + filled(chunks.left())""",
         hints=[("after", r"Self::send_insert_query_\([^;]*;", "let ghost s0 = transport_.h(); proof { lemma_extends(h0, g0, s0); }"), ("start", "", "broadcast use lemma_step; let ghost h0 = transport0.h(); let mut transport = transport0; let ghost cs = chunks.left(); let ghost mut n = 0int; proof { assert(cs.skip(0) =~= cs); assert(sent(h0) + Seq::<BlockV>::empty() =~= sent(h0)); }"), ("before", r"Ok\(transport\)", "proof { assert(cs.take(n) =~= cs); } ")],
         loops=[dict(head=r"^loop$", spec="invariant !transport.inconsistent, quiet(transport.h()), extends(h0, transport.h()), only(h0, transport.h(), query.id()), 0 <= n <= cs.len(), chunks.left() =~= cs.skip(n), sent(transport.h()) == sent(h0) + filled(cs.take(n)) ensures chunks.left().len() == 0", start="broadcast use lemma_step; let ghost g0 = transport.h();", end="proof { lemma_extends(h0, g0, transport.h()); lemma_only(h0, g0, s0, query.id()); lemma_only_none(h0, s0, transport.h(), query.id()); lemma_extends(h0, s0, transport.h()); lemma_filled_push(cs.take(n), cs[n]); assert(cs.take(n).push(cs[n]) =~= cs.take(n + 1)); assert(cs.skip(n).skip(1) =~= cs.skip(n + 1)); assert(cs.skip(n)[0] == cs[n]); n = n + 1; }")])
    u.fn(*LH, "fn insert_", vis="pub", sig=NOASYNC, rewrites=[(r"\.insert_timeout\s*\.unwrap_or_else\(\|\| Duration::from_secs\(0\)\)", ".insert_timeout", "timeout value")],
         hints=[("start", "", "broadcast use lemma_step; let ghost bv = block.v(); let ghost qid = query.id();"),
                ("after", r"Self::send_insert_query_\([^;]*;", "let ghost x = transport.h(); let ghost dst = dst_block.v();"),
                ("after", r"Self::insert_block_\([^;]*;", "let ghost y = transport.h(); let ghost cs = chunks_v(cast_v(bv, dst), INSERT_BLOCK_SIZE as nat); proof { lemma_only_none(g, x, y, qid); lemma_extends(g, x, y); }"), ("before", r"Self::insert_tail_\(", "let r_ = "),
                ("after", r"Self::insert_tail_\([^)]*\)[^}]*(?=\})", "; proof { if r_ is Ok { lemma_stored(g, x, y, r_->Ok_0.h(), dst, qid, bv); } } r_"),
                ("after", r"clear\(\)[^;]*;", "let ghost g = transport.h();")],
         spec=RUNQ + """ensures r is Err ==> final(self).wf(),
            r matches Ok(t) ==> final(self).inner is None && !t.inconsistent && quiet(t.h()) && stored(t.h(), query.id(), block.v())""")
    u.fn(*LH, "fn insert", vis="pub", sig=NOASYNC + [(r"<Q, B>", "", "the table and the block as given"), (r"table: Q", "table: Table", "the table as given"), (r"block: B", "block: &Block", "the block as given"), (r"where.*", "", "")], keep_where=False,
         rewrites=[(r"\.as_ref\(\)", "", "AsRef<Block>"), (r"Self::make_query", "make_query", "")],
         spec=RUNQ + """ensures final(self).wf(), r is Ok ==> final(self).idle() && exists|q: int| insert_of(q, table, block.v()) && #[trigger] stored(final(self).inner->Some_0.h(), q, block.v())""")
    STREAMRW = [(r"self\.check_connection\(\)", "self.check_connection(&mut Attempts::none_())", "attempts recorded"), (r"Err\(err\) => return Box::pin\(stream::once\(future::err\(err\)\)\),", "Err(err) => return Err(err),", "a stream of one error is an error"),
                (r"let fut: BoxFuture<[^=]*= Box::pin\(async move \{", "{", "async text read sequentially"), (r"let inner: BoxStream<'a, Result<Block>> =", "let inner: Result<()> =", "a stream as its preparation"),
                (r"match f\(self\) \{\s*Ok\(s\) => Box::pin\(s\),\s*Err\(err\) => Box::pin\(stream::once\(future::err\(err\)\)\),\s*\}", "Ok(())", "wrap_stream(f) read as its preparation followed by f"),
                (r"Err\(err\) => Box::pin\(stream::once\(future::err\(err\)\)\),", "Err(err) => Err(err),", "a stream of one error is an error"), (r"\}\);\s*Box::pin\(fut\.flatten_stream\(\)\)", "}", "async text read sequentially")]
    u.fn(*LH, "fn wrap_stream", vis="pub", rename="wrap_stream_", sig=[(r"<'a, F>", "", "the prepared stream left out"), (r"&'a mut self", "&mut self", ""), (r", f: F", "", ""), (r"BoxStream<'a, Result<Block>>", "Result<()>", ""), (r"where.*", "", "")], rewrites=STREAMRW,
         keep_where=False, spec=RUNQ + "ensures final(self).wf(), r is Ok ==> final(self).idle()")
    u.text("}")
    u.item(SB, "enum BlockStreamState", rewrites=[(r"(pub(\([^)]*\))? )?enum", "pub enum", "")])
    u.item(SB, "struct BlockStream", rewrites=[K.PUBF, (r"<'a>", "", "the handle by value instead of by reference"), (r"&'a mut ClientHandle", "ClientHandle", "the handle by value instead of by reference")])
    u.text(BS + "impl BlockStream {")
    SBI = "impl ^impl<'a> "
    u.fn(SB, SBI + "BlockStream<'a>$", "fn new", vis="pub", sig=[(r"&mut ClientHandle", "ClientHandle", "the handle by value")],
         spec="requires client.inner is None, inner.inv(), !inner.read_block, inner.state is Ask, inner.inner matches Some(t) && in_query(t.h()) && !t.inconsistent && t.h().len() > 0 && t.h().last() is Ask ensures r.inv(), r.client == client, r.inner == inner, r.state is Reading, r.skip_first_block == skip_first_block, r.seen().len() == 0")
    u.fn(SB, SBI + "Stream for BlockStream<'a>$", "fn poll_next", vis="pub", attrs="#[verifier::exec_allows_no_decreases_clause]",
         sig=[(r"mut self: Pin<&mut Self>", "&mut self", "Pin"), (r"task::Context<'_>", "Cx", ""), (r"Self::Item", "Result<Block>", "associated type written out")],
         rewrites=[(r"poll_next_unpin", "poll_next", "Pin"), (r"err\.into\(\)", "Error::Io(err)", "Into<Error> by name"), (r"Error::Other\(Cow::Borrowed\([^)]*\)\)", "Error::Other(String::new())", "error text"), (r"self\.block_index \+= 1;", "self.block_index = count_add(self.block_index, 1);", "counter of blocks (fewer than 2^64 in a result)"), (r"Error::Io\(std::io::Error::from\(\s*ErrorKind::(\w+),?\s*\)\)", r"Error::Io(io::Error::from(io::ErrorKind::\1))", "path of ErrorKind")],
         spec="requires old(self).inv() ensures final(self).inv(), streams(*old(self), *final(self), r)",
         loops=[dict(head=r"^loop$", spec="invariant self.inv(), self.skip_first_block == old(self).skip_first_block, self.client.pool.pool() == old(self).client.pool.pool(), old(self).state is Reading || *self == *old(self), old(self).state is Reading ==> match self.state { BlockStreamState::Reading => self.seen() == old(self).seen(), BlockStreamState::Finished => self.client.idle() && !(self.client.pool is Detached) && self.client.inner->Some_0.h().last() == Ev::Got(Got::Eof) && shown(blocks_of(self.client.inner->Some_0.h()), self.skip_first_block) == old(self).seen(), _ => false }",
             start="broadcast use lemma_step, lemma_blocks, lemma_shown;")])
    u.fn(SB, SBI + "Drop for BlockStream<'a>$", "fn drop", vis="pub", rename="drop_", spec="requires old(self).inv() ensures final(self).client.wf(), final(self).client.pool.pool() == old(self).client.pool.pool(), old(self).state is Reading ==> (final(self).client.inner matches Some(t) && t.inconsistent && !(final(self).client.pool is Detached)), !(old(self).state is Reading) ==> final(self).client == old(self).client",
         rewrites=[(r"if let Some\(mut transport\) = self\.inner\.take_transport\(\) \{", "if let Some(transport0) = self.inner.take_transport() { let mut transport = transport0;", "")])
    u.text("}")
    u.item(QR, "struct QueryResult", rewrites=[K.PUBF, (r"<'a>", "", "the handle by value instead of by reference"), (r"&'a mut ClientHandle", "ClientHandle", "the handle by value instead of by reference")])
    u.text("impl QueryResult {")
    u.fn(QR, "impl ^impl<'a> QueryResult<'a>$", "fn stream_blocks_", vis="pub", sig=[(r"\bself\b", "self", ""), (r"BoxStream<'a, Result<Block>>", "Result<BlockStream>", "a stream as its preparation")],
         rewrites=[(r"self\.client\s*\.wrap_stream::<'a, _>\(move \|c: &'a mut ClientHandle\| \{", "{ let mut c = self.client; c.wrap_stream_()?; ", "wrap_stream(f) read as its preparation followed by f"), (r"BlockStream::<'a>::new", "BlockStream::new", ""), (r"Ok\(([^;]*)\)\s*\}\)", r"Ok(\1) }", "")],
         hints=[("start", "", "broadcast use lemma_step;")],
         spec="requires self.client.wf(), self.client.context.options.opts().send_retries < usize::MAX ensures r matches Ok(s) ==> s.inv() && s.state is Reading && s.skip_first_block == skip_first_block && s.seen().len() == 0 && asked_only(s.inner.inner->Some_0.h(), self.query.id())")
    u.text("}")
    u.text("} fn main() {}")
    return u
