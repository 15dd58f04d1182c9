"""How an iterator finds its buffers (P22): get_internal of every column, the type levels that select a buffer in a
nested column, and the Iterable implementations that build the iterators."""
import re
from . import cols as K

P = "src/types/column/iter/mod.rs"
T = "src/types/mod.rs"
C = "src/types/column/"

SPEC = """
// ---- what a column is made of ----
pub enum Elem { U8, U16, U32, U64, I8, I16, I32, I64, F32, F64, I128, U128, Bool }
pub enum Tree {
    Num(SqlType, Elem, Seq<SVal>),                 // a list of numbers
    Str(Seq<Bytes>), Fixed(usize, Seq<u8>, nat), Octets(SqlType, Seq<u8>), Dec(u8, u8, NoBits, Seq<SVal>),
    Days(Seq<u16>, Tz), Secs(Seq<u32>, DateTimeType, Tz), Ticks(Seq<i64>, u32, Tz),
    Null(Box<Tree>, Seq<u8>), Arr(Box<Tree>, Seq<u64>), Map(Box<Tree>, Box<Tree>, Seq<u64>),
    Saf(SimpleAggFunc, Box<Tree>),
    Lc(Box<Tree>, IndexPtr, Option<DictPtr>),
    Other(SqlType, nat),                           // gives no internals: UnsupportedOperation
}
pub open spec fn elem_of(t: SqlType) -> Option<Elem> { match t { SqlType::UInt8 => Some(Elem::U8), SqlType::UInt16 => Some(Elem::U16), SqlType::UInt32 => Some(Elem::U32), SqlType::UInt64 => Some(Elem::U64),
    SqlType::Int8 => Some(Elem::I8), SqlType::Int16 => Some(Elem::I16), SqlType::Int32 => Some(Elem::I32), SqlType::Int64 => Some(Elem::I64), SqlType::Float32 => Some(Elem::F32), SqlType::Float64 => Some(Elem::F64),
    SqlType::Int128 => Some(Elem::I128), SqlType::UInt128 => Some(Elem::U128), SqlType::Bool => Some(Elem::Bool), _ => None } }
pub open spec fn octets_n(t: SqlType) -> int { match t { SqlType::Ipv4 => 4, SqlType::Ipv6 => 16, SqlType::Uuid => 16, _ => 0 } }
pub open spec fn ty(t: Tree) -> SqlType decreases t { match t {
    Tree::Num(s, _, _) => s, Tree::Str(_) => SqlType::String, Tree::Fixed(n, _, _) => SqlType::FixedString(n), Tree::Octets(s, _) => s, Tree::Dec(p, s, _, _) => SqlType::Decimal(p, s),
    Tree::Days(_, _) => SqlType::Date, Tree::Secs(_, d, _) => SqlType::DateTime(d), Tree::Ticks(_, p, tz) => SqlType::DateTime(DateTimeType::DateTime64(p, tz)),
    Tree::Null(i, _) => SqlType::Nullable(&ty(*i)), Tree::Arr(i, _) => SqlType::Array(&ty(*i)), Tree::Map(k, v, _) => SqlType::Map(&ty(*k), &ty(*v)), Tree::Saf(f, i) => SqlType::SimpleAggregateFunction(f, &ty(*i)),
    Tree::Lc(i, _, _) => SqlType::LowCardinality(&ty(*i)), Tree::Other(s, _) => s } }
pub open spec fn last_of(o: Seq<u64>) -> int { start_of(o, o.len() as int) }
pub open spec fn rows(t: Tree) -> nat decreases t { match t {
    Tree::Num(_, _, c) => c.len(), Tree::Str(c) => c.len(), Tree::Fixed(_, _, n) => n, Tree::Octets(s, b) => (b.len() / (octets_n(s) as nat)), Tree::Dec(_, _, _, c) => c.len(), Tree::Days(c, _) => c.len(), Tree::Secs(c, _, _) => c.len(), Tree::Ticks(c, _, _) => c.len(),
    Tree::Null(_, n) => n.len(), Tree::Arr(_, o) => o.len(), Tree::Map(_, _, o) => o.len(), Tree::Saf(_, i) => rows(*i), Tree::Lc(_, ix, _) => ix.keys().len(), Tree::Other(_, n) => n } }
pub open spec fn twf(t: Tree) -> bool decreases t { rows(t) <= usize::MAX && match t {
    Tree::Num(s, e, c) => elem_of(s) == Some(e), Tree::Str(_) => true,
    Tree::Fixed(n, b, r) => b.len() == r * n && b.len() <= isize::MAX,
    Tree::Octets(s, b) => octets_n(s) > 0 && b.len() % (octets_n(s) as nat) == 0 && b.len() <= isize::MAX,
    Tree::Dec(_, _, nb, c) => c.len() * dec_w(nb) <= isize::MAX && (forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]) is Num && (if nb is N32 { i32::MIN <= c[i]->Num_0 <= i32::MAX } else { i64::MIN <= c[i]->Num_0 <= i64::MAX })),
    Tree::Days(_, _) => true, Tree::Secs(_, d, _) => d is DateTime32, Tree::Ticks(c, p, _) => p <= 9 && (forall|i: int| 0 <= i < c.len() ==> chrono_ok(tick_secs(#[trigger] c[i] as int, p as nat))),
    Tree::Null(i, n) => rows(*i) == n.len() && n.len() <= isize::MAX && twf(*i),
    Tree::Arr(i, o) => rows(*i) == last_of(o) && offs_ok(o, 0, o.len() as int) && twf(*i),
    Tree::Map(k, v, o) => rows(*k) == last_of(o) && rows(*v) == last_of(o) && offs_ok(o, 0, o.len() as int) && twf(*k) && twf(*v),
    Tree::Saf(_, i) => twf(*i), Tree::Lc(i, ix, d) => lc_ok(*i, ix, d) && twf(*i), Tree::Other(s, _) => s is Enum8 || s is Enum16 || s == SqlType::DateTime(DateTimeType::Chrono) } }
pub open spec fn dec_w(nb: NoBits) -> int { if nb is N32 { 4 } else { 8 } }
// the index selects dictionary cells; the accessor, if there is one, reads the same dictionary (lowcard unit)
pub open spec fn lc_ok(i: Tree, ix: IndexPtr, d: Option<DictPtr>) -> bool { (forall|j: int| 0 <= j < ix.keys().len() ==> #[trigger] ix.keys()[j] < rows(i)) && (d is Some <==> i is Str || i is Fixed || i is Days || i is Secs) && (d is Some && (i is Str || i is Fixed) ==> d->Some_0.strs() == strings_of(i)) }
pub open spec fn strings_of(i: Tree) -> Seq<Bytes> { match i { Tree::Str(c) => c, Tree::Fixed(n, b, r) => Seq::new(r, |j: int| bytes_of(bytes_at(b, j * n, n as int))), _ => Seq::empty() } }

// ---- the levels that select a buffer ----
pub open spec fn lvl(t: SqlType) -> nat decreases t { match t { SqlType::Nullable(i) => 1 + lvl(*i), SqlType::Array(i) => 1 + lvl(*i), SqlType::Map(_, v) => 1 + lvl(*v), SqlType::LowCardinality(_) => 1, _ => 0 } }
pub open spec fn mlvl(t: SqlType) -> nat decreases t { match t { SqlType::Nullable(i) => mlvl(*i), SqlType::Array(i) => mlvl(*i), SqlType::Map(_, v) => 1 + mlvl(*v), _ => 0 } }
pub proof fn lemma_mlvl(t: SqlType) ensures mlvl(t) <= lvl(t) decreases t { match t { SqlType::Nullable(i) => lemma_mlvl(*i), SqlType::Array(i) => lemma_mlvl(*i), SqlType::Map(_, v) => lemma_mlvl(*v), _ => {} } }

// types nest at most 255 deep (levels are u8)
pub open spec fn shallow(t: Tree) -> bool decreases t { lvl(ty(t)) <= 255 && match t { Tree::Null(i, _) => shallow(*i), Tree::Arr(i, _) => shallow(*i), Tree::Map(k, v, _) => shallow(*k) && shallow(*v), Tree::Saf(_, i) => shallow(*i), _ => true } }
// ---- what a get_internal call answers ----
pub enum Buf { Nothing, Nums(Elem, Seq<SVal>), Pool(Seq<Bytes>), Bytes(Seq<u8>), VecU8(Seq<u8>), Offsets(Seq<u64>) }
pub struct Answer { pub buf: Buf, pub n: Option<nat>, pub nobits: Option<NoBits> }
pub open spec fn own(t: Tree) -> Option<Answer> { match t {
    Tree::Num(_, e, c) => Some(Answer { buf: Buf::Nums(e, c), n: Some(c.len()), nobits: None }),
    Tree::Str(c) => Some(Answer { buf: Buf::Pool(c), n: Some(c.len()), nobits: None }),
    Tree::Fixed(_, b, r) => Some(Answer { buf: Buf::Bytes(b), n: Some(r), nobits: None }),
    Tree::Octets(_, b) => Some(Answer { buf: Buf::VecU8(b), n: None, nobits: None }),
    Tree::Dec(_, _, nb, c) => Some(Answer { buf: Buf::Nums(if nb is N32 { Elem::I32 } else { Elem::I64 }, c), n: Some(c.len()), nobits: Some(nb) }),
    Tree::Null(_, n) => Some(Answer { buf: Buf::Bytes(n), n: Some(n.len()), nobits: None }),
    Tree::Arr(_, o) => Some(Answer { buf: Buf::Offsets(o), n: Some(o.len()), nobits: None }),
    Tree::Map(_, _, o) => Some(Answer { buf: Buf::Offsets(o), n: Some(o.len()), nobits: None }),
    _ => None } }
// the two kinds of date columns have other internals, reached by get_internals
pub open spec fn dated(t: Tree) -> bool { t is Days || t is Secs || t is Ticks }
pub open spec fn deeper(p: u32) -> u32 { if p == 0 { 0 } else { (p - 2) as u32 } }
pub open spec fn odd0(p: u32) -> bool { p == 0 || p % 2 == 1 }
pub open spec fn answer(t: Tree, level: u8, p: u32) -> Option<Answer> decreases t { match t {
    Tree::Null(i, _) => if p == 0 && level == lvl(ty(t)) { own(t) } else { answer(*i, level, p) },
    Tree::Arr(i, _) => if p == 0 && level == lvl(ty(t)) { own(t) } else { answer(*i, level, p) },
    Tree::Map(k, v, _) => if p == 1 { answer(*k, level, 0) } else if p == 0 && level == lvl(ty(t)) { own(t) } else { answer(*v, level, deeper(p)) },
    Tree::Saf(_, i) => answer(*i, level, p),
    _ => own(t) } }
// the calls that are defined: a leaf has level 0 and writes the slots that it was given
pub open spec fn slots_of(t: Tree) -> nat { match t { Tree::Octets(_, _) => 1, Tree::Dec(_, _, _, _) => 3, Tree::Other(_, _) => 0, Tree::Lc(_, _, _) => 0, _ => 2 } }
pub open spec fn askable(t: Tree, level: u8, p: u32, slots: nat) -> bool decreases t { match t {
    Tree::Null(i, _) => if p == 0 && level == lvl(ty(t)) { slots >= 2 } else { askable(*i, level, p, slots) },
    Tree::Arr(i, _) => if p == 0 && level == lvl(ty(t)) { slots >= 2 } else { askable(*i, level, p, slots) },
    Tree::Map(k, v, _) => if p == 1 { askable(*k, level, 0, slots) } else if p == 0 && level == lvl(ty(t)) { slots >= 2 } else { (p == 0 || p % 2 == 1) && askable(*v, level, deeper(p), slots) },
    Tree::Saf(_, i) => askable(*i, level, p, slots),
    Tree::Other(_, _) => true, Tree::Lc(_, _, _) => true,
    _ => !dated(t) && level == 0 && slots >= slots_of(t) } }

// ---- the node an iterator is for ----
pub open spec fn down(root: Tree, node: Tree) -> bool decreases root { root == node || match root { Tree::Null(i, _) => down(*i, node), Tree::Arr(i, _) => down(*i, node), Tree::Map(_, v, _) => down(*v, node), _ => false } }
pub open spec fn key_at(root: Tree, k: nat) -> Option<Tree> decreases root { match root { Tree::Null(i, _) => key_at(*i, k), Tree::Arr(i, _) => key_at(*i, k), Tree::Map(kt, v, _) => if k == 0 { Some(*kt) } else { key_at(*v, (k - 1) as nat) }, _ => None } }
pub open spec fn at(root: Tree, node: Tree, p: u32) -> bool { if p == 0 { down(root, node) } else { p % 2 == 1 && (key_at(root, (p / 2) as nat) matches Some(kt) && down(kt, node)) } }
pub proof fn lemma_down(a: Tree, b: Tree) requires down(a, b) ensures lvl(ty(b)) <= lvl(ty(a)), mlvl(ty(b)) <= mlvl(ty(a)), twf(a) ==> twf(b), a != b ==> lvl(ty(b)) < lvl(ty(a)) decreases a
{ if a != b { match a { Tree::Null(i, _) => lemma_down(*i, b), Tree::Arr(i, _) => lemma_down(*i, b), Tree::Map(_, v, _) => lemma_down(*v, b), _ => {} } } }
pub proof fn lemma_down_step(a: Tree, b: Tree, c: Tree) requires down(a, b), down(b, c) ensures down(a, c) decreases a
{ if a != b { match a { Tree::Null(i, _) => lemma_down_step(*i, b, c), Tree::Arr(i, _) => lemma_down_step(*i, b, c), Tree::Map(_, v, _) => lemma_down_step(*v, b, c), _ => {} } } }
pub proof fn lemma_at_step(root: Tree, b: Tree, c: Tree, p: u32) requires at(root, b, p), down(b, c) ensures at(root, c, p) { if p == 0 { lemma_down_step(root, b, c); } else { lemma_down_step(key_at(root, (p / 2) as nat)->Some_0, b, c); } }
pub proof fn lemma_key(root: Tree, k: nat) requires key_at(root, k) is Some, twf(root) ensures twf(key_at(root, k)->Some_0) decreases root
{ match root { Tree::Null(i, _) => lemma_key(*i, k), Tree::Arr(i, _) => lemma_key(*i, k), Tree::Map(_, v, _) => if k > 0 { lemma_key(*v, (k - 1) as nat) }, _ => {} } }
pub proof fn lemma_at_wf(root: Tree, node: Tree, p: u32) requires at(root, node, p), twf(root) ensures twf(node) { if p == 0 { lemma_down(root, node); } else { lemma_key(root, (p / 2) as nat); lemma_down(key_at(root, (p / 2) as nat)->Some_0, node); } }
// the number of maps above a map is the difference of the map levels
pub proof fn lemma_key_level(root: Tree, node: Tree) requires down(root, node), node is Map ensures key_at(root, (mlvl(ty(root)) - mlvl(ty(node))) as nat) == Some(*node->Map_0), mlvl(ty(root)) >= mlvl(ty(node)) decreases root
{ lemma_down(root, node); if root != node { match root { Tree::Null(i, _) => lemma_key_level(*i, node), Tree::Arr(i, _) => lemma_key_level(*i, node), Tree::Map(_, v, _) => { lemma_down(*v, node); lemma_key_level(*v, node) }, _ => {} } } }
// a container is asked by its level, a leaf by level 0
pub open spec fn holder(t: Tree) -> bool { t is Null || t is Arr || t is Map }
pub open spec fn strip(t: Tree) -> Tree decreases t { match t { Tree::Saf(_, i) => strip(*i), _ => t } }
pub open spec fn leaf_node(t: Tree) -> bool { !holder(strip(t)) && !dated(strip(t)) }
pub open spec fn call_level(t: Tree) -> nat { if holder(t) { lvl(ty(t)) } else { 0 } }
pub proof fn lemma_self(node: Tree, level: u8, slots: nat, p: u32) requires holder(node) || leaf_node(node), level == call_level(node), slots >= slots_of(strip(node)), holder(node) ==> p == 0
    ensures answer(node, level, p) == own(strip(node)), askable(node, level, p, slots) decreases node
{ match node { Tree::Saf(_, i) => { lemma_self(*i, level, slots, p); }, _ => {} } }
pub proof fn lemma_down_answer(root: Tree, node: Tree, level: u8, slots: nat) requires down(root, node), holder(node) || leaf_node(node), level == call_level(node), slots >= slots_of(strip(node))
    ensures answer(root, level, 0) == own(strip(node)), askable(root, level, 0, slots) decreases root
{
    if root == node { lemma_self(node, level, slots, 0); } else {
        lemma_down(root, node); match root { Tree::Null(i, _) => lemma_down_answer(*i, node, level, slots), Tree::Arr(i, _) => lemma_down_answer(*i, node, level, slots), Tree::Map(_, v, _) => lemma_down_answer(*v, node, level, slots), _ => {} }
    }
}
pub proof fn lemma_key_answer(root: Tree, k: nat, kt: Tree, node: Tree, level: u8, slots: nat, p: u32) requires key_at(root, k) == Some(kt), down(kt, node), holder(node) || leaf_node(node), level == call_level(node), slots >= slots_of(strip(node)), p == 2 * k + 1
    ensures answer(root, level, p) == own(strip(node)), askable(root, level, p, slots) decreases root
{ match root { Tree::Null(i, _) => lemma_key_answer(*i, k, kt, node, level, slots, p), Tree::Arr(i, _) => lemma_key_answer(*i, k, kt, node, level, slots, p), Tree::Map(_, v, _) => if k == 0 { lemma_down_answer(kt, node, level, slots); } else { lemma_key_answer(*v, (k - 1) as nat, kt, node, level, slots, (p - 2) as u32); }, _ => {} } }
// THE lookup: whatever surrounds it, the call for a node reaches that node's own buffer
pub proof fn theorem_answer(root: Tree, node: Tree, level: u8, slots: nat, p: u32) requires at(root, node, p), holder(node) || leaf_node(node), level == call_level(node), slots >= slots_of(strip(node))
    ensures answer(root, level, p) == own(strip(node)), askable(root, level, p, slots)
{ if p == 0 { lemma_down_answer(root, node, level, slots); } else { lemma_key_answer(root, (p / 2) as nat, key_at(root, (p / 2) as nat)->Some_0, node, level, slots, p); } }

// ---- pointers of unknown type: what is behind one decides what it may be read as ----
#[verifier::external_body] #[derive(Clone, Copy)] pub struct AnyPtr { p: *const u8 }
impl AnyPtr {
    pub uninterp spec fn buf(&self) -> Buf;
    #[verifier::external_body] pub fn null() -> (r: AnyPtr) ensures r.buf() is Nothing { unimplemented!() }
    #[verifier::external_body] pub fn is_null(&self) -> (r: bool) ensures r == (self.buf() is Nothing) { unimplemented!() }
    #[verifier::external_body] pub fn u64s(self, n: usize) -> (r: &'static [u64]) requires self.buf() matches Buf::Offsets(o) && n <= o.len() ensures r@ == self.buf()->Offsets_0.subrange(0, n as int) { unimplemented!() }
    #[verifier::external_body] pub fn bytes(self) -> (r: Ptr) requires self.buf() is Bytes ensures r.mem() == self.buf()->Bytes_0, r.off() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn vec_u8(self) -> (r: &'static Vec<u8>) requires self.buf() is VecU8 ensures r@ == self.buf()->VecU8_0 { unimplemented!() }
    #[verifier::external_body] pub fn pool(self) -> (r: &'static StringPool) requires self.buf() is Pool ensures r.strs() == self.buf()->Pool_0 { unimplemented!() }
    #[verifier::external_body] pub fn nums<N: NumItem>(self, n: usize) -> (r: NumIter<N>) requires self.buf() matches Buf::Nums(e, c) && e == N::elem() && n <= c.len() ensures r.left@ == self.buf()->Nums_1.subrange(0, n as int) { unimplemented!() }
    // the cells of an i32 / i64 list as memory
    #[verifier::external_body] pub fn cells_raw(self, nb: NoBits) -> (r: Ptr) requires self.buf() matches Buf::Nums(e, c) && (e is I32 && nb is N32 || e is I64 && nb is N64)
        ensures r.off() == 0, r.mem().len() == self.buf()->Nums_1.len() * dec_w(nb), forall|i: int| 0 <= i < self.buf()->Nums_1.len() ==> le_int(#[trigger] span_at(r, dec_w(nb), i)) == self.buf()->Nums_1[i]->Num_0 { unimplemented!() }
}
#[verifier::external_body] pub fn vec_ptr(v: &Vec<u8>) -> (r: Ptr) ensures r.mem() == v@, r.off() == 0 { unimplemented!() }
// slice::Iter<'a, N>
pub trait NumItem: Sized { spec fn elem() -> Elem; spec fn vt() -> SqlType; }
pub struct NumIter<N> { pub left: Ghost<Seq<SVal>>, pub n: Option<N> }
impl<N> It for NumIter<N> { type Item = SVal; open spec fn wf(&self) -> bool { true } open spec fn rest(&self) -> Seq<SVal> { self.left@ } #[verifier::external_body] fn next(&mut self) -> (r: Option<SVal>) { unimplemented!() } }
// the slots that a caller hands to get_internal
pub struct Out { pub p: AnyPtr, pub n: usize, pub nobits: NoBits, pub slots: Ghost<nat> }
impl Out {
    pub fn set_p(&mut self, x: AnyPtr) requires old(self).slots@ >= 1 ensures *final(self) == (Out { p: x, ..*old(self) }) { self.p = x; }
    pub fn set_n(&mut self, x: usize) requires old(self).slots@ >= 2 ensures *final(self) == (Out { n: x, ..*old(self) }) { self.n = x; }
    pub fn set_nobits(&mut self, x: NoBits) requires old(self).slots@ >= 3 ensures *final(self) == (Out { nobits: x, ..*old(self) }) { self.nobits = x; }
}
pub open spec fn got(old_: Out, new_: Out, a: Answer) -> bool { new_.p.buf() == a.buf && new_.n == (if a.n is Some { a.n->Some_0 } else { old_.n as nat }) && new_.nobits == (if a.nobits is Some { a.nobits->Some_0 } else { old_.nobits }) && new_.slots == old_.slots }
pub open spec fn answered(t: Tree, level: u8, p: u32, old_: Out, new_: Out, ok: bool) -> bool { match answer(t, level, p) { Some(a) => ok && got(old_, new_, a), None => !ok } }
pub fn check(b: bool) requires b { }
#[verifier::external_body] pub fn bad_type() -> (r: Error) { unimplemented!() }

// ---- get_internals: a struct filled in through a pointer that the caller cast ----
pub enum DBuf { Nothing, U16(Seq<u16>), U32(Seq<u32>), I64(Seq<i64>) }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct DatesPtr { p: *const () }
impl DatesPtr {
    pub uninterp spec fn buf(&self) -> DBuf;
    #[verifier::external_body] pub fn null() -> (r: DatesPtr) ensures r.buf() is Nothing { unimplemented!() }
    #[verifier::external_body] pub fn is_null(&self) -> (r: bool) ensures r == (self.buf() is Nothing) { unimplemented!() }
    #[verifier::external_body] pub fn u16s(self) -> (r: Cells<u16>) requires self.buf() is U16 ensures r.cells() == self.buf()->U16_0 { unimplemented!() }
    #[verifier::external_body] pub fn u32s(self) -> (r: Cells<u32>) requires self.buf() is U32 ensures r.cells() == self.buf()->U32_0 { unimplemented!() }
    #[verifier::external_body] pub fn i64s(self) -> (r: Cells<i64>) requires self.buf() is I64 ensures r.cells() == self.buf()->I64_0 { unimplemented!() }
}
pub enum IAns { Nothing, Dates(DBuf, nat, Tz, Option<u32>), Lc(IndexPtr, DictPtr) }
pub open spec fn ians(t: Tree, level: u8) -> IAns decreases t { match t {
    Tree::Days(c, tz) => IAns::Dates(DBuf::U16(c), c.len(), tz, None), Tree::Secs(c, _, tz) => IAns::Dates(DBuf::U32(c), c.len(), tz, None), Tree::Ticks(c, p, tz) => IAns::Dates(DBuf::I64(c), c.len(), tz, Some(p)),
    Tree::Lc(i, ix, d) => if level != 1 { ians(*i, level) } else if d is Some { IAns::Lc(ix, d->Some_0) } else { IAns::Nothing }, _ => IAns::Nothing } }
// the caller's struct is the one that the column writes
pub struct Internals { pub lc: bool, pub d: DateTimeInternals, pub l: LowCardinalityInternals }
pub open spec fn ians_fit(t: Tree, level: u8, x: Internals) -> bool { match ians(t, level) { IAns::Dates(_, _, _, _) => !x.lc, IAns::Lc(_, _) => x.lc, _ => true } }
pub open spec fn iansd(t: Tree, level: u8, old_: Internals, new_: Internals, ok: bool) -> bool { match ians(t, level) {
    IAns::Nothing => !ok,
    IAns::Dates(b, n, tz, p) => ok && new_.d.begin.buf() == b && new_.d.len == n && new_.d.tz == tz && new_.d.precision == (if p is Some { p } else { old_.d.precision }),
    IAns::Lc(ix, d) => ok && new_.l.index == ix && new_.l.accessor == Some(d) && ix.live() } }
impl Internals {
    pub fn set_begin(&mut self, x: DatesPtr) requires !old(self).lc ensures *final(self) == (Internals { d: DateTimeInternals { begin: x, ..old(self).d }, ..*old(self) }) { self.d.begin = x; }
    pub fn set_len(&mut self, x: usize) requires !old(self).lc ensures *final(self) == (Internals { d: DateTimeInternals { len: x, ..old(self).d }, ..*old(self) }) { self.d.len = x; }
    pub fn set_tz(&mut self, x: Tz) requires !old(self).lc ensures *final(self) == (Internals { d: DateTimeInternals { tz: x, ..old(self).d }, ..*old(self) }) { self.d.tz = x; }
    pub fn set_precision(&mut self, x: Option<u32>) requires !old(self).lc ensures *final(self) == (Internals { d: DateTimeInternals { precision: x, ..old(self).d }, ..*old(self) }) { self.d.precision = x; }
    pub fn set_index(&mut self, x: IndexPtr) requires old(self).lc ensures *final(self) == (Internals { l: LowCardinalityInternals { index: x, ..old(self).l }, ..*old(self) }) { self.l.index = x; }
    pub fn set_accessor(&mut self, x: Option<DictPtr>) requires old(self).lc ensures *final(self) == (Internals { l: LowCardinalityInternals { accessor: x, ..old(self).l }, ..*old(self) }) { self.l.accessor = x; }
    pub fn dates(d: DateTimeInternals) -> (r: Internals) ensures !r.lc, r.d == d { Internals { lc: false, d, l: LowCardinalityInternals::default_() } }
    pub fn low(l: LowCardinalityInternals) -> (r: Internals) ensures r.lc, r.l == l { Internals { lc: true, d: DateTimeInternals::default_(), l } }
}

// dyn ColumnData, as far as its internals are concerned. (that a call through the pointer runs the implementation of
// the column behind it, and that a column's contents make a well-formed tree, is assumed: arrays, nullable, fixed ... units)
#[verifier::external_body] pub struct Inner { p: usize }
impl Inner {
    pub uninterp spec fn tree(&self) -> Tree;
    #[verifier::external_body] pub fn sql_type(&self) -> (r: SqlType) ensures r == ty(self.tree()) { unimplemented!() }
    #[verifier::external_body] pub fn get_internal(&self, pointers: &mut Out, level: u8, props: u32) -> (r: Result<()>) requires askable(self.tree(), level, props, old(pointers).slots@), shallow(self.tree()), twf(self.tree())
        ensures answered(self.tree(), level, props, *old(pointers), *final(pointers), r is Ok) { unimplemented!() }
    #[verifier::external_body] pub fn get_internals(&self, data_ptr: &mut Internals, level: u8, props: u32) -> (r: Result<()>) requires ians_fit(self.tree(), level, *old(data_ptr)) ensures iansd(self.tree(), level, *old(data_ptr), *final(data_ptr), r is Ok) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == rows(self.tree()) { unimplemented!() }
    pub uninterp spec fn accessor(&self) -> Option<DictPtr>;
    #[verifier::external_body] pub fn get_low_cardinality_accessor(&self) -> (r: Option<DictPtr>) ensures r == self.accessor(), r is Some <==> (self.tree() is Str || self.tree() is Fixed || self.tree() is Days || self.tree() is Secs), r is Some && (self.tree() is Str || self.tree() is Fixed) ==> r->Some_0.strs() == strings_of(self.tree()) { unimplemented!() }
}
"""



OUTS = [(r"\*pointers\[0\] = self\.(nulls|buffer)\.as_ptr\(\)", r"pointers.set_p(any_bytes(&self.\1))", "slot 0 through the checked stand-in, with what is behind the pointer"),
        (r"\*pointers\[0\] = self\.offsets\.as_ptr\(\) as \*const u8", "pointers.set_p(any_offsets(&self.offsets))", "slot 0 through the checked stand-in"),
        (r"\*pointers\[0\] = self\.data\.as_ptr\(\) as \*const u8", "pointers.set_p(any_nums(&self.data))", "slot 0 through the checked stand-in"),
        (r"\*pointers\[0\] = &self\.pool as \*const StringPool as \*const u8", "pointers.set_p(any_pool(&self.pool))", "slot 0 through the checked stand-in"),
        (r"\*pointers\[0\] = &self\.inner as \*const Vec<u8> as \*const u8", "pointers.set_p(any_vec(&self.inner))", "slot 0 through the checked stand-in"),
        (r"\*\(pointers\[1\] as \*mut usize\) = ([^;]+);", r"pointers.set_n(\1);", "slot 1"),
        (r"\*\(pointers\[2\] as \*mut NoBits\) = ([^;]+);", r"pointers.set_nobits(\1);", "slot 2"),
        (r"assert_eq!\(level, 0\);", "check(level == 0);", "assertion that must hold")]
GI = [(r"unsafe fn", "fn", "unsafe fn: its safety condition is the precondition"), (r"pointers: &\[\*mut \*const u8\]", "pointers: &mut Out", "pointer slots as the checked stand-in"), (r"_props: u32", "props: u32", "parameter name")]
GIS = [(r"unsafe fn", "fn", "unsafe fn: its safety condition is the precondition"), (r"data_ptr: \*mut \(\)", "data_ptr: &mut Internals", "untyped pointer as the checked stand-in"), (r"_props: u32", "props: u32", "parameter name"), (r"_level: u8", "level: u8", "parameter name")]
ASK = "requires askable(self.tree(), level, props, old(pointers).slots@), shallow(self.tree()), twf(self.tree()) ensures answered(self.tree(), level, props, *old(pointers), *final(pointers), r is Ok)"
IREF = [K.PUBF, (r"ArcColumnData|BoxColumnData|Box<dyn ColumnData \+ Send \+ Sync>", "Inner", "column pointer as a stand-in with its tree")]
IASK = "requires ians_fit(self.tree(), level, *old(data_ptr)) ensures iansd(self.tree(), level, *old(data_ptr), *final(data_ptr), r is Ok)"


def columns(u):
    u.text("""
#[verifier::external_body] pub fn any_bytes(v: &Vec<u8>) -> (r: AnyPtr) ensures r.buf() == Buf::Bytes(v@) { unimplemented!() }
#[verifier::external_body] pub fn any_vec(v: &Vec<u8>) -> (r: AnyPtr) ensures r.buf() == Buf::VecU8(v@) { unimplemented!() }
#[verifier::external_body] pub fn any_pool(v: &StringPool) -> (r: AnyPtr) ensures r.buf() == Buf::Pool(v.strs()) { unimplemented!() }
#[verifier::external_body] pub fn any_offsets(v: &List<u64>) -> (r: AnyPtr) ensures r.buf() == Buf::Offsets(v.data@) { unimplemented!() }
#[verifier::external_body] pub fn any_nums<N: NumItem>(v: &NumList<N>) -> (r: AnyPtr) ensures r.buf() == Buf::Nums(N::elem(), v.cells()) { unimplemented!() }
// List<T> of a number type, as its cells (numeric unit)
#[verifier::external_body] #[verifier::reject_recursive_types(N)] pub struct NumList<N> { p: Vec<N> }
impl<N> NumList<N> { pub uninterp spec fn cells(&self) -> Seq<SVal>; #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.cells().len() { unimplemented!() } }
""")
    # the levels
    u.text("impl SqlType {")
    for f, sp in (("level", "lvl"), ("map_level", "mlvl")):
        u.fn(T, "impl ^impl SqlType$", f"fn {f}", vis="pub", spec=f"requires lvl(*self) <= 255 ensures r == {sp}(*self) decreases self", hints=[("start", "", "proof { lemma_mlvl(*self); }")])
    u.text("}")
    L = lambda name, tree, get=GI: None
    for path, name, tree, ln in (("nullable.rs", "NullableColumnData", "Tree::Null(Box::new(self.inner.tree()), self.nulls@)", True),
                                 ("array.rs", "ArrayColumnData", "Tree::Arr(Box::new(self.inner.tree()), self.offsets.data@)", True),
                                 ("map.rs", "MapColumnData", "Tree::Map(Box::new(self.keys.tree()), Box::new(self.values.tree()), self.offsets.data@)", False),
                                 ("simple_agg_func.rs", "SimpleAggregateFunctionColumnData", "Tree::Saf(self.func, Box::new(self.inner.tree()))", False)):
        I = (C + path, f"impl ^impl ColumnData for {name}$")
        u.item(C + path, f"struct {name}", rewrites=IREF)
        u.text(f"impl {name} {{ pub open spec fn tree(&self) -> Tree {{ {tree} }}")
        u.fn(*I, "fn sql_type", vis="pub", rewrites=[K.INTORW, (r"self\.(\w+)\.sql_type\(\)\.into\(\)", r"intern(self.\1.sql_type())", "SqlType -> &'static SqlType through the interning stub")], spec="ensures r == ty(self.tree())")
        if ln:
            u.fn(*I, "fn len", vis="pub", rewrites=[(r"assert_eq!\((.*?), (.*?)\);", r"check(\1 == \2);", "assertion that must hold")], spec="requires twf(self.tree()) ensures r == rows(self.tree())")
        u.fn(*I, "fn get_internal", vis="pub", sig=GI, rewrites=OUTS, spec=ASK,
             hints=[("start", "", "proof { assert(props > 1u32 && props % 2 == 1 ==> (1u32 | (sub(props >> 1, 1) << 1)) == props - 2 && props >> 1 >= 1) by (bit_vector); }")] if name == "MapColumnData" else [])
        u.text("}")
    # leaves
    VW = (r"<T>\s*where.*?\{|<T>\s*where[^{]*", "<T>", "bounds dropped")
    for path, name, g, decl, tree, fields in (
            ("numeric.rs", "VectorColumnData", "<N: NumItem>", "<N>", "Tree::Num(N::vt(), N::elem(), self.data.cells())", "pub data: NumList<N>"),
            ("string.rs", "StringColumnData", "", "", "Tree::Str(self.pool.strs())", "pub pool: StringPool"),
            ("fixed_string.rs", "FixedStringColumnData", "", "", "Tree::Fixed(self.str_len, self.buffer@, self.count())", "pub buffer: Vec<u8>, pub str_len: usize"),
            ("ip.rs", "IpColumnData", "<V: IpVersion>", "<V>", "Tree::Octets(V::vt(), self.inner@)", "pub inner: Vec<u8>, pub phantom: Ghost<V>"),
            ("decimal.rs", "DecimalColumnData", "", "", "Tree::Dec(self.precision, self.scale, self.nobits, self.inner.tree()->Num_2)", "pub inner: Inner, pub precision: u8, pub scale: u8, pub nobits: NoBits")):
        if name == "IpColumnData":
            u.text("pub trait IpVersion { spec fn vt() -> SqlType; }")
        u.text((f"#[verifier::reject_recursive_types({decl[1:-1]})] " if decl else "") + f"pub struct {name}{decl} {{ {fields} }}")   # the fields that the functions below use
        u.text(f"impl{g} {name}{decl} {{ pub open spec fn tree(&self) -> Tree {{ {tree} }}")
        pre, hints, rw = "", [], list(OUTS)
        if name == "FixedStringColumnData":
            u.text("pub open spec fn count(&self) -> nat { if self.str_len == 0 { 0 } else { self.buffer@.len() / (self.str_len as nat) } }")
            u.fn(C + path, r"impl ^impl ColumnData for FixedStringColumnData$", "fn len", vis="pub", spec="requires self.str_len > 0 ensures r == self.count()")
            pre = ", self.str_len > 0"
        elif name == "StringColumnData":
            u.fn(C + path, r"impl ^impl ColumnData for StringColumnData$", "fn len", vis="pub", spec="ensures r == self.pool.strs().len()")
        elif name == "VectorColumnData":
            u.fn(C + path, r"impl ^impl<T> ColumnData for VectorColumnData<T>", "fn len", vis="pub", spec="ensures r == self.data.cells().len()")
        elif name == "DecimalColumnData":
            pre = ", self.inner.tree() is Num, twf(self.inner.tree()), self.inner.tree()->Num_1 == (if self.nobits is N32 { Elem::I32 } else { Elem::I64 })"
        hdr = {"VectorColumnData": r"impl ^impl<T> ColumnData for VectorColumnData<T>", "IpColumnData": r"impl ^impl<V: IpVersion> ColumnData for IpColumnData<V>"}.get(name, f"impl ^impl ColumnData for {name}$")
        u.fn(C + path, hdr, "fn get_internal", vis="pub", sig=GI, rewrites=rw, spec=ASK.replace(" ensures", pre + " ensures", 1), keep_where=False, hints=hints)
        u.text("}")
    # the columns with internals of their own
    LCI = [K.PUBF, (r"\*const LowCardinalityIndex", "IndexPtr", "raw pointer as the checked stand-in"), (r"\*const dyn LowCardinalityAccessor", "DictPtr", "raw pointer as the checked stand-in"), (r"\*const \(\)", "DatesPtr", "raw pointer as the checked stand-in")]
    u.item(C + "date.rs", "struct DateTimeInternals", rewrites=LCI)
    u.item(C + "low_cardinality.rs", "struct LowCardinalityInternals", rewrites=LCI)
    u.text("impl DateTimeInternals {")
    u.fn(C + "date.rs", "impl ^impl Default for DateTimeInternals$", "fn default", rename="default_", vis="pub", rewrites=[(r"ptr::null\(\)", "DatesPtr::null()", "null pointer"), (r"Tz::Zulu", "any_tz()", "a zone")], spec="ensures r.precision is None, r.begin.buf() is Nothing, r.len == 0")
    u.text("} impl LowCardinalityInternals {")
    u.fn(C + "low_cardinality.rs", "impl ^impl Default for LowCardinalityInternals$", "fn default", rename="default_", vis="pub", rewrites=[(r"ptr::null_mut\(\)", "IndexPtr::null()", "null pointer")], spec="ensures r.accessor is None")
    u.text("} #[verifier::external_body] pub fn any_tz() -> Tz { unimplemented!() }")
    u.text("#[verifier::external_body] pub fn any_dates<D: DateItem>(v: &DateList<D>) -> (r: DatesPtr) ensures r.buf() == D::buf(v.cells()) { unimplemented!() }\n"
           "#[verifier::external_body] #[verifier::reject_recursive_types(D)] pub struct DateList<D> { p: Vec<D> }\n"
           "impl<D> DateList<D> { pub uninterp spec fn cells(&self) -> Seq<D>; #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.cells().len() { unimplemented!() } }\n"
           "pub trait DateItem: Sized { spec fn buf(s: Seq<Self>) -> DBuf; spec fn tree(s: Seq<Self>, tz: Tz) -> Tree; proof fn is_dates(s: Seq<Self>, tz: Tz) ensures ians(Self::tree(s, tz), 0) == IAns::Dates(Self::buf(s), s.len(), tz, None), dated(Self::tree(s, tz)), !(Self::tree(s, tz) is Lc); }\n"
           "impl DateItem for u16 { open spec fn buf(s: Seq<u16>) -> DBuf { DBuf::U16(s) } open spec fn tree(s: Seq<u16>, tz: Tz) -> Tree { Tree::Days(s, tz) } proof fn is_dates(s: Seq<u16>, tz: Tz) {} }\n"
           "impl DateItem for u32 { open spec fn buf(s: Seq<u32>) -> DBuf { DBuf::U32(s) } open spec fn tree(s: Seq<u32>, tz: Tz) -> Tree { Tree::Secs(s, DateTimeType::DateTime32, tz) } proof fn is_dates(s: Seq<u32>, tz: Tz) {} }\n"
           "impl DateItem for i64 { open spec fn buf(s: Seq<i64>) -> DBuf { DBuf::I64(s) } uninterp spec fn tree(s: Seq<i64>, tz: Tz) -> Tree; #[verifier::external_body] proof fn is_dates(s: Seq<i64>, tz: Tz) {} }\n".replace("impl DateItem for i64 { open spec fn buf(s: Seq<i64>) -> DBuf { DBuf::I64(s) } uninterp spec fn tree(s: Seq<i64>, tz: Tz) -> Tree; #[verifier::external_body] proof fn is_dates(s: Seq<i64>, tz: Tz) {} }\n", "#[verifier::external_body] pub fn any_ticks(v: &DateList<i64>) -> (r: DatesPtr) ensures r.buf() == DBuf::I64(v.cells()) { unimplemented!() }\n")
           + "#[verifier::reject_recursive_types(T)] pub struct DateColumnData<T> { pub data: DateList<T>, pub tz: Tz }\npub struct DateTime64ColumnData { pub data: DateList<i64>, pub params: (u32, Tz) }\npub struct LowCardinalityColumnData { pub inner: Inner, pub index: IndexPtr }")
    FILL = [(r"\bunsafe \{", "{", "unsafe block"), (r"let data_ref = &mut \*\(data_ptr as \*mut (DateTimeInternals|LowCardinalityInternals)\);", "", "the cast: every write below demands that the caller's struct has this type"),
            (r"data_ref\.(\w+) = (.*?);", r"data_ptr.set_\1(\2);", "field write through the checked stand-in"),
            (r"self\.data\.as_ptr\(\)\.cast\(\)", "PTR(&self.data)", "list memory"), (r"&self\.index as \*const LowCardinalityIndex", "self.index", "address of the index"),
            (r"mem::transmute::<\s*&dyn LowCardinalityAccessor,\s*\*const dyn LowCardinalityAccessor,?\s*>\(accessor\)", "accessor", "lifetime-erasing transmute of a reference"),
            (r"return Err\(Error::FromSql\(FromSqlError::UnsupportedOperation\)\)", "return Err(bad_type())", "error value"),
            (r"let Some\(accessor\) = ([^;]*?) else \{\s*return ([^;]*);\s*\};", r"let accessor = match \1 { Some(a_) => a_, None => return \2 };", "let-else as a match")]
    u.text("impl<T: DateItem> DateColumnData<T> { pub open spec fn tree(&self) -> Tree { T::tree(self.data.cells(), self.tz) }")
    u.fn(C + "date.rs", r"impl ^impl<T> ColumnData for DateColumnData<T>", "fn get_internals", vis="pub", sig=GIS, keep_where=False, rewrites=[(a, b.replace("PTR", "any_dates"), c) for a, b, c in FILL], hints=[("start", "", "proof { T::is_dates(self.data.cells(), self.tz); }")], spec=IASK)
    u.text("} impl DateTime64ColumnData { pub open spec fn tree(&self) -> Tree { Tree::Ticks(self.data.cells(), self.params.0, self.params.1) }")
    u.fn(C + "datetime64.rs", r"impl ^impl ColumnData for DateTime64ColumnData$", "fn get_internals", vis="pub", sig=GIS, rewrites=[(a, b.replace("PTR", "any_ticks"), c) for a, b, c in FILL], spec=IASK)
    u.text("} impl LowCardinalityColumnData { pub open spec fn tree(&self) -> Tree { Tree::Lc(Box::new(self.inner.tree()), self.index, self.inner.accessor()) }")
    u.fn(C + "low_cardinality.rs", r"impl ^impl ColumnData for LowCardinalityColumnData$", "fn get_internals", vis="pub", sig=GIS, rewrites=FILL, spec=IASK.replace(" ensures", ", self.index.live() ensures", 1))
    u.text("}")
