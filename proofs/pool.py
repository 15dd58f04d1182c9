"""The pool of connections (P18): places, idle connections, waiting tasks, hosts."""
from . import cols as K, common as C

PO = "src/pool/mod.rs"
GH = "src/pool/futures/get_handle.rs"
T = "src/io/transport.rs"
L = "src/lib.rs"

SPEC = """
pub enum Poll<V> { Ready(V), Pending }
impl<V> Poll<V> { pub fn is_ready(&self) -> (r: bool) ensures r == (self is Ready) { match self { Poll::Ready(_) => true, Poll::Pending => false } } }
pub struct Waker { pub id: int }
pub struct Cx { pub w: Waker }                                       // std::task::Context
#[verifier::external_body] pub fn waker_of(cx: &Cx) -> (r: Waker) ensures r == cx.w { unimplemented!() }
pub enum Ordering { Acquire, Release, AcqRel, SeqCst, Relaxed }
#[verifier::external_body] pub struct OptionsSource { _p: () }
impl Clone for OptionsSource { #[verifier::external_body] fn clone(&self) -> (r: OptionsSource) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct Context { _p: () }
impl Clone for Context { #[verifier::external_body] fn clone(&self) -> (r: Context) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct Url { _p: () }
pub struct AtomicBool { pub v: bool }
impl AtomicBool {
    pub fn store(&mut self, v: bool, o: Ordering) ensures final(self).v == v { self.v = v; }
    pub fn load(&self, o: Ordering) -> (r: bool) ensures r == self.v { self.v }
}
// a counter shared by all tasks: fetch_add is one atomic step
pub struct AtomicUsize { pub v: usize }
impl AtomicUsize { pub fn fetch_add(&mut self, n: usize, o: Ordering) -> (r: usize) ensures r == old(self).v, final(self).v == (old(self).v + n) % 0x1_0000_0000_0000_0000 { let r = self.v; self.v = self.v.wrapping_add(n); r } }
// std::sync::Weak<Inner>
#[verifier::external_body] pub struct WeakInner { _p: () }
impl WeakInner { pub uninterp spec fn alive(&self) -> bool; #[verifier::external_body] pub fn upgrade_(&self) -> (r: bool) ensures r == self.alive() { unimplemented!() } }
// what a handle knows of its pool
#[verifier::external_body] pub struct PoolRef { _p: () }
impl Clone for PoolRef { #[verifier::external_body] fn clone(&self) -> (r: PoolRef) ensures r == *self { unimplemented!() } }
impl Clone for PoolBinding { #[verifier::external_body] fn clone(&self) -> (r: PoolBinding) ensures r == *self { unimplemented!() } }
pub assume_specification<V> [core::mem::replace] (d: &mut V, v: V) -> (r: V) ensures r == *old(d), *final(d) == v;
"""

STATE = """
impl PoolBinding { pub open spec fn pool(self) -> Option<PoolRef> { match self { PoolBinding::None => None, PoolBinding::Attached(p) => Some(p), PoolBinding::Detached(p) => Some(p) } } }
impl ClientHandle {
    // a handle that a task holds takes a place of the pool
    pub open spec fn out(&self) -> bool { self.inner matches Some(t) && !t.status.inside.v }
    // a handle that is kept by the pool
    pub open spec fn kept(&self) -> bool { self.inner matches Some(t) && t.status.inside.v }
}
// The state the lock protects, as one task sees it, with ghost records:
//   delta: what this task added to the number of places in use; popped: waiting tasks taken from the queue and not yet woken;
//   owes/bnew/bidle/bcount: whether something a waiting task may wait for happened since the tasks were last woken
pub struct St { pub new: nat, pub idle: Seq<ClientHandle>, pub tasks: Seq<Waker>, pub ongoing: int, pub locked: bool, pub delta: int, pub popped: int, pub owes: bool, pub bnew: nat, pub bidle: nat, pub bcount: int }
pub open spec fn count(s: St) -> int { s.new + s.idle.len() + s.ongoing }
pub open spec fn owing(s: St) -> bool { s.owes || s.new < s.bnew || s.idle.len() > s.bidle || count(s) < s.bcount }
// the pool's promise, whenever the lock is free
pub open spec fn fits(s: St, min: nat, max: nat) -> bool { s.new <= 1 && s.idle.len() <= min && count(s) <= max && all_kept(s.idle) }
pub open spec fn all_kept(q: Seq<ClientHandle>) -> bool { forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).kept() }
#[verifier::external_body] pub struct Guard { _p: () }
#[verifier::external_body] pub struct ConnFuture { _p: () }
impl ConnFuture {
    // opening a connection (Client::open): the handle it makes does not take a place yet
    #[verifier::external_body] pub fn poll_unpin(&mut self, cx: &mut Cx) -> (r: Poll<Result<ClientHandle>>) ensures r matches Poll::Ready(Ok(c)) ==> c.kept(), final(cx).w == old(cx).w { unimplemented!() }
}
pub struct Inner { pub q: Queues, pub hosts: Vec<Url>, pub connections_num: AtomicUsize }
#[verifier::external_body] pub struct Queues { _p: () }
impl Queues {
    pub uninterp spec fn st(&self) -> St;
    pub uninterp spec fn min(&self) -> nat;
    pub uninterp spec fn max(&self) -> nat;
    pub open spec fn same(&self, o: &Queues) -> bool { self.min() == o.min() && self.max() == o.max() }
    pub open spec fn fits(&self) -> bool { fits(self.st(), self.min(), self.max()) }
    // Mutex: other tasks ran meanwhile, and kept the promise; a task that holds the lock may not take it again
    #[verifier::external_body] pub fn lock(&mut self) -> (g: Guard) requires !old(self).st().locked
        ensures final(self).same(old(self)), final(self).fits(), ({ let (o, n) = (old(self).st(), final(self).st());
            n.locked && n.ongoing >= 0 && n.delta == o.delta && n.popped == o.popped && n.owes == owing(o) && n.bnew == n.new && n.bidle == n.idle.len() && n.bcount == count(n) }) { unimplemented!() }
    #[verifier::external_body] pub fn unlock(&mut self, g: Guard) requires old(self).st().locked, old(self).fits() ensures final(self).same(old(self)), final(self).st() == (St { locked: false, ..old(self).st() }) { unimplemented!() }
    // the guard goes out of scope
    #[verifier::external_body] pub fn end_scope(&mut self) requires old(self).st().locked ==> old(self).fits() ensures final(self).same(old(self)), final(self).st() == (St { locked: false, ..old(self).st() }) { unimplemented!() }
    #[verifier::external_body] pub fn new_len(&self) -> (r: usize) ensures r == self.st().new { unimplemented!() }
    #[verifier::external_body] pub fn new_pop(&mut self) -> (r: Option<ConnFuture>) requires old(self).st().locked ensures final(self).same(old(self)),
        if old(self).st().new > 0 { r is Some && final(self).st() == (St { new: (old(self).st().new - 1) as nat, ..old(self).st() }) } else { r is None && final(self).st() == old(self).st() } { unimplemented!() }
    #[verifier::external_body] pub fn new_push(&mut self, f: ConnFuture) -> (r: core::result::Result<(), ConnFuture>) requires old(self).st().locked ensures final(self).same(old(self)),
        if old(self).st().new < 1 { r is Ok && final(self).st() == (St { new: old(self).st().new + 1, ..old(self).st() }) } else { r is Err && final(self).st() == old(self).st() } { unimplemented!() }
    #[verifier::external_body] pub fn idle_len(&self) -> (r: usize) ensures r == self.st().idle.len() { unimplemented!() }
    #[verifier::external_body] pub fn idle_pop(&mut self) -> (r: Option<ClientHandle>) requires old(self).st().locked ensures final(self).same(old(self)),
        if old(self).st().idle.len() > 0 { r == Some(old(self).st().idle[0]) && final(self).st() == (St { idle: old(self).st().idle.skip(1), ..old(self).st() }) } else { r is None && final(self).st() == old(self).st() } { unimplemented!() }
    #[verifier::external_body] pub fn idle_push(&mut self, c: ClientHandle) -> (r: core::result::Result<(), ClientHandle>) requires old(self).st().locked ensures final(self).same(old(self)),
        if old(self).st().idle.len() < old(self).max() { r is Ok && final(self).st() == (St { idle: old(self).st().idle.push(c), ..old(self).st() }) } else { r is Err && final(self).st() == old(self).st() } { unimplemented!() }
    #[verifier::external_body] pub fn tasks_push(&mut self, w: Waker) ensures final(self).same(old(self)), final(self).st() == (St { tasks: old(self).st().tasks.push(w), ..old(self).st() }), final(self).st().tasks.contains(w) { unimplemented!() }
    #[verifier::external_body] pub fn tasks_pop(&mut self) -> (r: Option<Waker>) ensures final(self).same(old(self)), ({ let o = old(self).st(); let n = final(self).st();
        if o.tasks.len() > 0 { r == Some(o.tasks[0]) && n == (St { tasks: o.tasks.skip(1), popped: o.popped + 1, ..o }) }
        else { r is None && n == (if o.popped == 0 { St { owes: false, bnew: o.new, bidle: o.idle.len(), bcount: count(o), ..o } } else { o }) } }) { unimplemented!() }
    #[verifier::external_body] pub fn woke(&mut self, w: Waker) ensures final(self).same(old(self)), final(self).st() == (St { popped: old(self).st().popped - 1, ..old(self).st() }) { unimplemented!() }
    // (the counter does not wrap: every decrement undoes an increment, see `delta`)
    #[verifier::external_body] pub fn ongoing_load(&self, o: Ordering) -> (r: usize) ensures r == self.st().ongoing { unimplemented!() }
    #[verifier::external_body] pub fn ongoing_fetch_add(&mut self, n: usize, o: Ordering) requires old(self).st().locked ensures final(self).same(old(self)), final(self).st() == (St { ongoing: old(self).st().ongoing + n, delta: old(self).st().delta + n, ..old(self).st() }) { unimplemented!() }
    #[verifier::external_body] pub fn ongoing_fetch_sub(&mut self, n: usize, o: Ordering) requires old(self).st().locked ensures final(self).same(old(self)), final(self).st() == (St { ongoing: old(self).st().ongoing - n, delta: old(self).st().delta - n, ..old(self).st() }) { unimplemented!() }
}
#[verifier::external] impl core::fmt::Debug for ClientHandle { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
impl Inner {
    pub open spec fn st(&self) -> St { self.q.st() }
    pub open spec fn frame(&self, o: &Inner) -> bool { self.q.same(&o.q) && self.hosts == o.hosts && self.connections_num == o.connections_num }
}
"""

POOLSPEC = """
impl Pool {
    pub open spec fn st(&self) -> St { self.inner.q.st() }
    pub open spec fn inv(&self) -> bool { self.min == self.inner.q.min() && self.max == self.inner.q.max() }
    pub open spec fn frame(&self, o: &Pool) -> bool { self.inner.frame(&o.inner) && self.min == o.min && self.max == o.max && self.options == o.options }
    #[verifier::external_body] pub fn this(&self) -> (r: PoolRef) { unimplemented!() }
    #[verifier::external_body] pub fn new_connection(&self) -> (r: ConnFuture) { unimplemented!() }
}
"""

# field access through the shared queues
QRW = [(r"\b(self(?:\.inner|\.pool\.inner)?|inner|this\.pool\.inner)\.(new|idle|tasks|ongoing)\s*\.(len|pop|push|load|fetch_add|fetch_sub)\(", r"\1.q.\2_\3(", "queue, counter and lock seen as one state"),
       (r"\b(self|inner|self\.inner)\.lock\(\)", r"\1.q.lock()", "queue, counter and lock seen as one state"),
       (r"\btask\.wake\(\)", "self.q.woke(task)", "waking a task"),
       (r"cx\.waker\(\)\.clone\(\)", "waker_of(cx)", "waker of the task"),
       (r"while let Some\((?:mut )?(\w+)\) = ([^{]*?) \{", r"loop { let o_ = \2; if o_.is_none() { break; } let \1 = o_.unwrap();", "while let Some(x) = e as a loop that breaks on None")]
EV = [(r"\batomic::", "", "path"), (r"sync::", "", "path")]
LOCKED = "old(self).st().locked"


def build():
    from rsx import Unit
    u = Unit("pool", rewrites=QRW + C.COMMON_RW)
    u.text(C.HEADER + "verus! {\nglobal size_of usize == 8;\n")
    C.errors(u)
    u.text(SPEC)
    u.item(T, "struct TransportStatus", rewrites=[K.PUBF, (r"sync::Weak<Inner>", "WeakInner", "weak reference to the pool")])
    u.text("pub struct ClickhouseTransport { pub status: TransportStatus }   // its other fields do not matter here\n")
    u.item(PO, "enum PoolBinding", rewrites=[(r"\(Pool\)", "(PoolRef)", "a shared pool as a reference to it")])
    u.item(L, "struct ClientHandle", rewrites=[K.PUBF])
    u.text(STATE)
    u.item(PO, "struct Pool", rewrites=[K.PUBF, (r"Arc<Inner>", "Inner", "the pool as the one task that holds the lock sees it")])
    u.text(POOLSPEC + "impl Inner {")
    IM = (PO, "impl ^impl Inner$")
    u.fn(*IM, "fn wake_tasks", vis="pub", sig=[(r"&self", "&mut self", "shared state as &mut")], attrs="#[verifier::exec_allows_no_decreases_clause]",
         spec="requires old(self).st().popped == 0 ensures final(self).frame(old(self)), final(self).st().tasks.len() == 0, !owing(final(self).st()), final(self).st().popped == 0, ({ let (o, n) = (old(self).st(), final(self).st()); n.new == o.new && n.idle == o.idle && n.ongoing == o.ongoing && n.delta == o.delta && n.locked == o.locked })",
         loops=[dict(head=r"^loop$", spec="""invariant self.frame(old(self)), self.st().popped == 0, ({ let (o, n) = (old(self).st(), self.st()); n.new == o.new && n.idle == o.idle && n.ongoing == o.ongoing && n.delta == o.delta && n.locked == o.locked })
            ensures self.st().tasks.len() == 0, !owing(self.st())""")])
    u.fn(*IM, "fn release_conn", vis="pub", sig=[(r"&self", "&mut self", "shared state as &mut")], rewrites=[(r"\bdrop\(guard\)", "self.q.unlock(guard)", "the lock is released")],
         spec="requires !old(self).st().locked, old(self).st().popped == 0 ensures final(self).frame(old(self)), final(self).st().delta == old(self).st().delta - 1, !final(self).st().locked, !owing(final(self).st()), final(self).st().popped == 0")
    u.fn(*IM, "fn conn_count", vis="pub", spec="requires self.st().ongoing >= 0, count(self.st()) <= usize::MAX ensures r == count(self.st())")
    u.text("}\nimpl PoolBinding {")
    PB = (PO, "impl ^impl PoolBinding$")
    u.fn(*PB, "fn take", vis="pub", rewrites=[(r"\bmem::replace", "core::mem::replace", "path of mem::replace")], spec="ensures r == *old(self), *final(self) is None")
    u.fn(*PB, "fn is_attached", vis="pub", spec="ensures r == (*self is Attached)")
    u.fn(*PB, "fn is_some", vis="pub", spec="ensures r == self.pool() is Some")
    u.fn(PO, "impl ^impl From<PoolBinding> for Option<Pool>$", "fn from", vis="pub", rename="into_pool", sig=[(r"-> Self", "-> Option<PoolRef>", "Self written out")], spec="ensures r == binding.pool()")
    RET = """({ let (o, n) = (old(pool_).st(), final(pool_).st()); """
    u.fn(*PB, "fn return_conn", vis="pub", sig=[(r"client: ClientHandle", "client: ClientHandle, pool_: &mut Pool", "the shared pool passed along")],
         rewrites=[(r"if let Some\(mut pool\) = self\.into\(\)", "if let Some(_pool) = PoolBinding::into_pool(self)", "Into by name"), (r"Pool::return_conn\(&mut pool, client\)", "Pool::return_conn(pool_, client)", "the shared pool passed along")],
         spec="""requires old(pool_).inv(), !old(pool_).st().locked, old(pool_).st().popped == 0, client.inner is Some, self.pool() is Some
        ensures final(pool_).inv(), !final(pool_).st().locked, final(pool_).st().delta == old(pool_).st().delta - 1, !owing(final(pool_).st()), final(pool_).st().popped == 0""")
    u.text("}\nimpl ClickhouseTransport {")
    u.fn(T, "impl ^impl ClickhouseTransport$", "fn set_inside", vis="pub", sig=[(r"&self", "&mut self", "interior mutability as &mut")], spec="ensures final(self).status.inside.v == value, final(self).status.pool == old(self).status.pool")
    u.text("}\nimpl TransportStatus {")
    u.fn(T, "impl ^impl Drop for TransportStatus$", "fn drop", vis="pub", rename="drop_", sig=[(r"&mut self", "&mut self, inner_: &mut Inner", "the shared pool passed along")],
         rewrites=[(r"if let Some\((\w+)\) = self\.pool\.upgrade\(\) \{", "if self.pool.upgrade_() {", "weak reference to the pool"), (r"pool_inner\.release_conn", "inner_.release_conn", "the shared pool passed along")],
         spec="""requires !old(inner_).st().locked, old(inner_).st().popped == 0
        ensures final(inner_).st().delta == old(inner_).st().delta - if !old(self).inside.v && old(self).pool.alive() { 1int } else { 0 },
            !final(inner_).st().locked, final(inner_).st().popped == 0, !owing(old(inner_).st()) ==> !owing(final(inner_).st())""")
    u.text("}\nimpl ClientHandle {")
    u.fn(L, "impl ^impl ClientHandle$", "fn set_inside", vis="pub", sig=[(r"&self", "&mut self", "interior mutability as &mut")], rewrites=[(r"Some\(ref inner\)", "Some(ref mut inner)", "interior mutability as &mut"), (r"unreachable!\(\)", "assert(false)", "unreachable")],
         spec="requires old(self).inner is Some ensures final(self).inner matches Some(t) && t.status.inside.v == value && t.status.pool == old(self).inner->Some_0.status.pool, final(self).pool == old(self).pool, final(self).context == old(self).context")
    u.fn(PO, "impl ^impl Drop for ClientHandle$", "fn drop", vis="pub", rename="drop_", sig=[(r"&mut self", "&mut self, pool_: &mut Pool", "the shared pool passed along")],
         rewrites=[(r"let client = Self \{", "let client = ClientHandle {", "Self written out"), (r"pool\.return_conn\(client\)", "pool.return_conn(client, pool_)", "the shared pool passed along")],
         spec="""requires old(pool_).inv(), !old(pool_).st().locked, old(pool_).st().popped == 0
        ensures final(pool_).inv(), !final(pool_).st().locked, final(pool_).st().popped == 0, !owing(old(pool_).st()) ==> !owing(final(pool_).st()), final(self).inner is None, final(self).pool is None,
            final(pool_).st().delta == old(pool_).st().delta - if old(self).inner is Some && old(self).pool.pool() is Some { 1int } else { 0 }""")
    u.text("}\nimpl Pool {")
    PL = (PO, "impl ^impl Pool$")
    u.fn(*PL, "fn take_conn", vis="pub", rewrites=[(r"PoolBinding::Attached\(self\.clone\(\)\)", "PoolBinding::Attached(self.this())", "a shared pool as a reference to it")],
         spec="""requires old(self).st().locked, all_kept(old(self).st().idle)
        ensures final(self).frame(old(self)), match r {
            Some(c) => c.out() && c.pool is Attached && old(self).st().idle.len() > 0 && final(self).st() == (St { idle: old(self).st().idle.skip(1), ongoing: old(self).st().ongoing + 1, delta: old(self).st().delta + 1, ..old(self).st() }),
            None => old(self).st().idle.len() == 0 && final(self).st() == old(self).st() }""")
    u.fn(*PL, "fn return_conn", vis="pub", rewrites=[(r"\bdrop\(guard\)", "self.inner.q.unlock(guard)", "the lock is released")], sig=[(r"mut client", "client0", "a by-value parameter that is changed")], hints=[("start", "", "let mut client = client0;")],
         spec="""requires old(self).inv(), !old(self).st().locked, old(self).st().popped == 0, client0.inner is Some
        ensures final(self).frame(old(self)), final(self).inv(), !final(self).st().locked, final(self).st().delta == old(self).st().delta - 1, !owing(final(self).st()), final(self).st().popped == 0""")
    u.fn(*PL, "fn handle_futures", vis="pub", sig=[(r"Context<'_>", "Cx", "")],
         spec="""requires old(self).inv(), old(self).st().locked, fits(old(self).st(), old(self).min as nat, old(self).max as nat), old(self).st().ongoing >= 0
        ensures final(self).frame(old(self)), final(cx).w == old(cx).w, ({ let (o, n) = (old(self).st(), final(self).st()); match r {
            Ok(()) => n == o || (o.new == 1 && exists|c: ClientHandle| c.kept() && n == (St { new: 0, idle: #[trigger] o.idle.push(c), ..o })),
            Err(_) => o.new == 1 && n == (St { new: 0, ..o }) } })""")
    u.fn(*PL, "fn poll", vis="pub", sig=[(r"mut self: Pin<&mut Self>", "&mut self", "Pin"), (r"Context<'_>", "Cx", "")], attrs="#[verifier::exec_allows_no_decreases_clause]",
         rewrites=[(r"let inner = self\.inner\.clone\(\);", "", "the pool as the one task that holds the lock sees it"), (r"(?<![.\w])inner\.lock\(\)", "self.inner.q.lock()", "queue, counter and lock seen as one state"), (r"self\.handle_futures\(cx\)\?;", "match self.handle_futures(cx) { Ok(()) => {} Err(e) => { self.inner.q.end_scope(); return Poll::Ready(Err(e)); } }", "? in a function returning Poll, and the end of the guard's scope"),
                   (r"self\.inner\.q\.new_push\(self\.new_connection\(\)\)", "({ let f_ = self.new_connection(); self.inner.q.new_push(f_) })", "order of evaluation made explicit"), (r"\bdrop\(guard\)", "self.inner.q.unlock(guard)", "the lock is released")],
         hints=[("before", r"match self\.take_conn", "let ghost s1 = self.st(); let r_ = "), ("end", "", "; self.inner.q.end_scope(); r_")],
         spec="""requires old(self).inv(), !old(self).st().locked, old(self).st().popped == 0
        ensures final(self).frame(old(self)), !final(self).st().locked, final(self).st().popped == 0, final(cx).w == old(cx).w, match r {
            Poll::Ready(Ok(c)) => c.out() && c.pool is Attached && final(self).st().delta == old(self).st().delta + 1,
            Poll::Ready(Err(_)) => final(self).st().delta == old(self).st().delta,
            Poll::Pending => final(self).st().delta == old(self).st().delta && final(self).st().tasks.contains(old(cx).w) && (owing(final(self).st()) ==> owing(old(self).st())) }""")
    u.fn(*PL, "fn get_addr", vis="pub", sig=[(r"&self", "&mut self", "shared state as &mut")],
         spec="requires old(self).inner.hosts.len() > 0 ensures *r == old(self).inner.hosts[(old(self).inner.connections_num.v % old(self).inner.hosts.len()) as int], final(self).inner.hosts == old(self).inner.hosts, final(self).inner.connections_num.v == (old(self).inner.connections_num.v + 1) % 0x1_0000_0000_0000_0000, final(self).inner.q == old(self).inner.q")
    u.text("}")
    u.item(GH, "struct GetHandle", rewrites=[K.PUBF])
    u.text("impl GetHandle {")
    u.fn(GH, "impl ^impl PinnedDrop for GetHandle$", "fn drop", vis="pub", rename="drop_", sig=[(r"self: Pin<&mut Self>", "&mut self", "Pin")],
         spec="requires old(self).pool.st().popped == 0 ensures final(self).pool.st().tasks.len() == 0, !owing(final(self).pool.st()), final(self).pool.st().popped == 0, final(self).pool.st().delta == old(self).pool.st().delta")
    u.fn(GH, "impl ^impl Future for GetHandle$", "fn poll", vis="pub", sig=[(r"self: Pin<&mut Self>", "&mut self", "Pin"), (r"Context<'_>", "Cx", ""), (r"Self::Output", "Result<ClientHandle>", "associated type written out")],
         rewrites=[(r"let mut this = self\.project\(\);", "let this = self;", "Pin"), (r"this\.pool\.as_mut\(\)\.poll", "this.pool.poll", "Pin")],
         spec="""requires old(self).pool.inv(), !old(self).pool.st().locked, old(self).pool.st().popped == 0, !owing(old(self).pool.st())
        ensures !final(self).pool.st().locked, final(self).pool.st().popped == 0, !owing(final(self).pool.st()), match r {
            Poll::Ready(Ok(c)) => c.out() && c.pool is Attached && final(self).pool.st().delta == old(self).pool.st().delta + 1,
            Poll::Ready(Err(_)) => final(self).pool.st().delta == old(self).pool.st().delta,
            Poll::Pending => final(self).pool.st().delta == old(self).pool.st().delta && final(self).pool.st().tasks.contains(old(cx).w) }""")
    u.text("}} fn main() {}")
    return u
