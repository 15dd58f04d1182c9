"""String columns: the pool that stores them and the column over it (P08)."""
from . import cols as K

P = "src/types/column/string_pool.rs"
S = "src/types/column/string.rs"
IP = (P, "impl ^impl StringPool$")
IS = (S, "impl ^impl ColumnData for StringColumnData$")
RX = ("src/binary/read_ex.rs", "impl ^impl<T> ReadEx for T")

SPEC = """
pub open spec fn str_cells(s: Seq<Seq<u8>>) -> Seq<SVal> { Seq::new(s.len(), |i: int| SVal::Str(s[i])) }
pub trait AsBytes { spec fn by(&self) -> Seq<u8>; fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.by(); }
// io::Write for &mut [u8]: write_all copies to the front (and fails when the source is longer: .unwrap() panics)
#[verifier::external_body] pub fn put_all(b: &mut [u8], x: &[u8])
    requires x@.len() <= old(b)@.len()
    ensures final(b)@ == x@ + old(b)@.skip(x@.len() as int) { unimplemented!() }
pub mod cmpx { use super::*; pub fn max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } } }
pub proof fn lemma_enc_piece(s: Seq<u8>) requires s.len() <= u64::MAX ensures str_piece(SVal::Str(s), enc_bytes(s)) {
    lemma_dec_enc(s.len() as u64, s);
    let e = enc(s.len()); let p = e + s;
    assert(p.skip(e.len() as int).take(s.len() as int) =~= s);
}
pub proof fn lemma_strs_snoc(cs: Seq<SVal>, b: Seq<u8>, c: SVal, p: Seq<u8>) requires strs(cs, b), str_piece(c, p) ensures strs(cs.push(c), b + p) {
    let t = b + p; let m = b.len() as int;
    assert(cs.push(c).drop_last() =~= cs); assert(t.take(m) =~= b); assert(t.skip(m) =~= p);
}
// the piece a length-prefixed read consumes
pub proof fn lemma_read_piece(r: Seq<u8>) ensures dec_str(r) matches StrDec::Val(s, n) ==> n <= r.len() && str_piece(SVal::Str(s), r.take(n as int)) {
    lemma_str(r);
    match dec_str(r) {
        StrDec::Val(s, n) => {
            let p = r.take(n as int);
            lemma_dec_prefix(r, p, 0, 0);
            match dec(r) { Dec::Val(v, k) => { assert(p.skip(k as int).take(v as int) =~= r.skip(k as int).take(v as int)); }, _ => {} }
        },
        _ => {},
    }
}
// a varint is decided by the bytes it occupies
pub proof fn lemma_dec_prefix(s: Seq<u8>, p: Seq<u8>, i: nat, acc: nat)
    requires p.len() <= s.len(), p == s.take(p.len() as int), i <= p.len(), dec_from(s, i, acc) matches Dec::Val(v, k) && k <= p.len()
    ensures dec_from(p, i, acc) == dec_from(s, i, acc) decreases s.len() - i
{
    lemma_dec_bound(s, i, acc);
    assert(p[i as int] == s[i as int]);
    if s[i as int] >= 128 && i < 9 { lemma_dec_prefix(s, p, i + 1, acc + (s[i as int] - 128) as nat * pow2(7 * i)); }
}
"""

POOL = """
impl StringPool {
    pub open spec fn wf(&self) -> bool {
        &&& self.capacity * AVG_STR_SIZE <= usize::MAX
        &&& self.chunks@.len() > 0 ==> self.position <= self.chunks@.last()@.len()
        &&& forall|i: int| 0 <= i < self.pointers@.len() ==> {
            let p = #[trigger] self.pointers@[i];
            p.chunk < self.chunks@.len() && p.shift + p.len <= self.chunks@[p.chunk as int]@.len()
            && (p.chunk == self.chunks@.len() - 1 ==> p.shift + p.len <= self.position)
        }
    }
    pub open spec fn str(&self, i: int) -> Seq<u8> {
        let p = self.pointers@[i];
        self.chunks@[p.chunk as int]@.subrange(p.shift as int, p.shift + p.len)
    }
    pub open spec fn n(&self) -> nat { self.pointers@.len() }
    pub open spec fn strs(&self) -> Seq<Seq<u8>> { Seq::new(self.n(), |i: int| self.str(i)) }
    pub open spec fn room(&self) -> int { if self.chunks@.len() > 0 { self.chunks@.last()@.len() - self.position } else { 0 } }
    pub open spec fn some(&self) -> bool { self.chunks@.len() > 0 }
"""
AFTER = """(final(%s)@.len() == size ==> final(self).wf() && final(self).n() == old(self).n() + 1 && final(self).str(old(self).n() as int) == final(%s)@
            && (forall|i: int| 0 <= i < old(self).n() ==> #[trigger] final(self).str(i) == old(self).str(i)))"""
PUT = [(r"b\.write_all\((.*?)\)\.unwrap\(\);", r"put_all(b, \1);", "io::Write for &mut [u8] (write_all().unwrap()) through a stub that requires room"),
       (r"let mut b = ", "let b = ", "binding of the returned slice")]


def pool(u):
    u.text("pub const AVG_STR_SIZE: usize = 80;")
    u.item(P, "struct StringPtr", attrs="#[derive(Clone, Copy)]", rewrites=[K.PUBF, (r"^\s*struct", "pub struct", "made visible to specifications")])
    u.item(P, "struct StringPool", rewrites=[K.PUBF])
    u.item(P, "struct StringIter", rewrites=[K.PUBF])
    u.text(SPEC)
    u.text(POOL)
    u.fn(*IP, "fn with_capacity", vis="pub", spec="requires capacity * AVG_STR_SIZE <= usize::MAX ensures r.wf(), r.n() == 0")
    u.fn(*IP, "fn allocate", vis="pub", spec="requires old(self).wf() ensures r@.len() == size, " + AFTER % ("r", "r") +
         " decreases (if old(self).room() < size || !old(self).some() { 1int } else { 0int })")
    u.fn(*IP, "fn free_space", spec="requires self.wf() ensures r == self.room()")
    u.fn(*IP, "fn try_allocate", rewrites=[(r"&mut buffer\[", "&mut buffer.as_mut_slice()[", "range of a Vec taken through as_mut_slice")],
         spec="requires old(self).wf(), old(self).some() ==> size <= old(self).room() ensures old(self).some() <==> r is Some, r matches Some(s) ==> s@.len() == size && " + AFTER % ("s", "s"),
         hints=[("start", "", "proof { if self.chunks@.len() > 0 { vec_len(&self.chunks@[self.chunks@.len() - 1]); } }")])
    u.fn(*IP, "fn reserve", rewrites=[(r"use std::cmp::max;", "use cmpx::max;", "std::cmp::max through its contract")],
         spec="requires old(self).wf() ensures final(self).wf(), final(self).some(), final(self).room() >= size, final(self).n() == old(self).n(), forall|i: int| 0 <= i < old(self).n() ==> #[trigger] final(self).str(i) == old(self).str(i)")
    u.fn(*IP, "fn get", vis="pub", rewrites=[(r"unsafe \{ (.*?) \}", r"\1", "unsafe block: the callee's precondition is checked instead")],
         spec="requires self.wf(), index < self.n() ensures r@ == self.str(index as int)")
    u.fn(*IP, "fn get_by_pointer", sig=[(r"unsafe fn", "fn", "unsafe fn: its safety condition is the precondition")],
         rewrites=[(r"self\.chunks\.get_unchecked\((.*?)\)", r"self.chunks[\1]", "get_unchecked as a checked index (in bounds is proved)"),
                   (r"let ptr = chunk\.as_ptr\(\)\.add\((.*?)\);\s*slice::from_raw_parts\(ptr, (.*?)\)", r"vstd::slice::slice_subrange(chunk.as_slice(), \1, \1 + \2)", "raw parts of a chunk as a checked sub-slice (in bounds is proved)")],
         spec="requires pointer.chunk < self.chunks@.len(), pointer.shift + pointer.len <= self.chunks@[pointer.chunk as int]@.len() ensures r@ == self.chunks@[pointer.chunk as int]@.subrange(pointer.shift as int, pointer.shift + pointer.len)",
         hints=[("start", "", "proof { vec_len(&self.chunks[pointer.chunk as int]); }")])
    u.fn(*IP, "fn get_unchecked", vis="pub", sig=[(r"unsafe fn", "fn", "unsafe fn: its safety condition is the precondition")],
         rewrites=[(r"self\.pointers\.get_unchecked\(index\)", "&self.pointers[index]", "get_unchecked as a checked index (in bounds is proved)")],
         spec="requires self.wf(), index < self.n() ensures r@ == self.str(index as int)")
    u.fn(*IP, "fn len", vis="pub", spec="ensures r == self.n()")
    u.fn(*IP, "fn strings", vis="pub", spec="ensures r.pool == self, r.index == 0")
    u.text("}\nimpl<'a> StringIter<'a> {")
    u.fn(P, r"impl ^impl<'a> Iterator for StringIter<'a>$", "fn next", vis="pub", sig=[(r"Option<Self::Item>", "Option<&'a [u8]>", "associated type written out")],
         spec="""requires old(self).pool.wf() ensures final(self).pool == old(self).pool,
        old(self).index < old(self).pool.n() ==> (r matches Some(s) && s@ == old(self).pool.str(old(self).index as int)) && final(self).index == old(self).index + 1,
        old(self).index >= old(self).pool.n() ==> r is None && final(self).index == old(self).index""")
    u.text("}\npub fn pool_from<T: AsBytes>(source: Vec<T>) -> (pool: StringPool) requires source@.len() * AVG_STR_SIZE <= usize::MAX ensures pool.wf(), pool.n() == source@.len(), forall|i: int| 0 <= i < source@.len() ==> #[trigger] pool.str(i) == source@[i].by() { StringPool::from_vec(source) }")
    u.text("impl StringPool {")
    u.fn(P, r"impl ^impl<T> From<Vec<T>> for StringPool", "fn from", rename="from_vec<T: AsBytes>", vis="pub", sig=[(r"-> Self", "-> StringPool", "Self written out")],
         rewrites=PUT + [(r"for s in source\.iter\(\)", "for s in it: source.iter()", "ghost name for the iterator")],
         loops=[dict(head=r"^for s in it: source\.iter\(\)$", spec="""invariant pool.wf(), pool.n() == it.index@, it.seq().len() == source@.len(),
            forall|i: int| 0 <= i < source@.len() ==> *(#[trigger] it.seq()[i]) == source@[i],
            forall|i: int| 0 <= i < it.index@ ==> #[trigger] pool.str(i) == source@[i].by()""")],
         spec="requires source@.len() * AVG_STR_SIZE <= usize::MAX ensures r.wf(), r.n() == source@.len(), forall|i: int| 0 <= i < source@.len() ==> #[trigger] r.str(i) == source@[i].by()")
    u.text("""}
pub trait ReadStr: ReadEx {
    fn read_str_into_buffer(&mut self, pool: &mut StringPool) -> (r: Result<()>)
        requires old(pool).wf()
        ensures same_end(*final(self), *old(self)),
            r is Ok ==> (dec_str(old(self).rest()) matches StrDec::Val(b, n) && final(self).rest() == old(self).rest().skip(n as int)
                && final(pool).wf() && final(pool).n() == old(pool).n() + 1 && final(pool).str(old(pool).n() as int) == b
                && (forall|i: int| 0 <= i < old(pool).n() ==> #[trigger] final(pool).str(i) == old(pool).str(i))),
            old(self).steady() ==> (r is Ok <==> dec_str(old(self).rest()) is Val);
}
impl<R: ReadEx> ReadStr for R {""")
    u.fn(*RX, "fn read_str_into_buffer", hints=[("start", "", "proof { lemma_str(self.rest()); }")])
    u.text("}")


def column(u):
    u.item(S, "struct StringColumnData", rewrites=[K.PUBF])
    u.text("""
impl ValueRef<'_> {""")
    u.fn("src/types/value_ref.rs", r"impl ^impl<'a> From<&'a \[u8\]> for ValueRef<'a>$", "fn from", rename="from_bytes", vis="pub", spec="ensures r == ValueRef::String(bs)")
    u.text("}\nimpl Value {")
    u.fn("src/types/value.rs", r"impl ^impl From<Value> for Vec<u8>$", "fn from", rename="into_bytes", vis="pub", sig=[(r"-> Self", "-> Vec<u8>", "Self written out")],
         rewrites=[(r"let from = SqlType::from\(v\);\s*panic!\([^)]*\)", "never()", "panic branch for another value type: must be unreachable under the precondition"),
                   (r"bs\.to_vec\(\)", "to_vec(&bs)", "slice::to_vec through a stub")],
         spec="requires v is String ensures r@ == v->String_0@")
    u.text("""}
#[verifier::external_body] pub fn never() -> ! requires false { unimplemented!() }
#[verifier::external_body] pub fn to_vec(b: &Arc<Vec<u8>>) -> (r: Vec<u8>) ensures r@ == b@ { unimplemented!() }
impl StringColumnData {""")
    u.fn(S, "impl ^impl StringColumnData$", "fn with_capacity", vis="pub", spec="requires capacity * AVG_STR_SIZE <= usize::MAX ensures r.wf(), r.pool.n() == 0, r.cells() == Seq::<SVal>::empty()")
    u.fn(S, "impl ^impl StringColumnData$", "fn load", vis="pub", rewrites=[(r"for _ in 0\.\.size", "for i in 0..size", "loop counter named")],
         spec="""requires size * AVG_STR_SIZE <= usize::MAX ensures same_end(*final(reader), *old(reader)),
        r matches Ok(c) ==> c.wf() && c.ty() == SqlType::String && c.cells().len() == size && took(SqlType::String, c.cells(), old(reader).rest(), final(reader).rest())""",
         loops=[dict(head=r"^for i in 0\.\.size$", spec="""invariant data.wf(), data.pool.n() == i, same_end(*reader, *old(reader)),
                reader.rest().len() <= old(reader).rest().len(), reader.rest() == old(reader).rest().skip(old(reader).rest().len() - reader.rest().len()),
                strs(data.cells(), old(reader).rest().take(old(reader).rest().len() - reader.rest().len()))""",
                     start="let ghost rest0 = reader.rest(); let ghost c0 = data.cells(); proof { lemma_read_piece(rest0); }",
                     end="""proof {
            let r0 = old(reader).rest(); let a = r0.len() - rest0.len(); let b = r0.len() - reader.rest().len();
            lemma_strs_snoc(c0, r0.take(a), data.cells().last(), rest0.take(b - a));
            assert(data.cells() =~= c0.push(data.cells().last()));
            assert(r0.take(b) =~= r0.take(a) + rest0.take(b - a));
            assert(reader.rest() =~= r0.skip(b));
        }""",
                     before="proof { assert(old(reader).rest().take(0) =~= Seq::<u8>::empty()); assert(old(reader).rest().skip(0) =~= old(reader).rest()); }")])
    u.text("""}
impl ColumnData for StringColumnData {
    open spec fn wf(&self) -> bool { self.pool.wf() }
    open spec fn ty(&self) -> SqlType { SqlType::String }
    open spec fn cells(&self) -> Seq<SVal> { str_cells(self.pool.strs()) }
    open spec fn dict(&self) -> bool { true }
    open spec fn takes(&self, v: Value) -> bool { v is String }
    open spec fn stored(&self, v: Value) -> SVal { SVal::Str(v->String_0@) }""")
    u.fn(*IS, "fn sql_type")
    u.fn(*IS, "fn save", rewrites=[(r"let strings = ", "let mut strings = ", "iterator made mutable"),
        (r"for v in strings\.skip\(start\)\.take\(end - start\) \{", "for i in 0..start { strings.next(); } for i in start..end { let v = match strings.next() { Some(v) => v, None => never() };", "skip(start).take(end - start) desugared to calls of next")],
        loops=[dict(head=r"^for i in 0\.\.start$", spec="invariant self.wf(), strings.pool == self.pool, strings.index == i, i <= start <= end <= self.cells().len()"),
               dict(head=r"^for i in start\.\.end$", spec="""invariant self.wf(), strings.pool == self.pool, strings.index == i, start <= i <= end <= self.cells().len(),
                old(encoder)@.len() <= encoder@.len(), encoder@.take(old(encoder)@.len() as int) == old(encoder)@, strs(self.cells().subrange(start as int, i as int), encoder@.skip(old(encoder)@.len() as int))""",
                    start="let ghost e0 = encoder@; proof { str_len(&self.pool, i as int); lemma_enc_piece(self.pool.str(i as int)); }",
                    end="""proof {
                let l = old(encoder)@.len() as int;
                lemma_strs_snoc(self.cells().subrange(start as int, i as int), e0.skip(l), self.cells()[i as int], enc_bytes(self.pool.str(i as int)));
                assert(self.cells().subrange(start as int, i + 1) =~= self.cells().subrange(start as int, i as int).push(self.cells()[i as int]));
                assert(encoder@.skip(l) =~= e0.skip(l) + enc_bytes(self.pool.str(i as int)));
                assert(encoder@.take(l) =~= e0.take(l));
            }""",
                    before="proof { let l = old(encoder)@.len() as int; assert(encoder@.take(l) =~= encoder@); assert(encoder@.skip(l) =~= Seq::<u8>::empty()); assert(self.cells().subrange(start as int, start as int) =~= Seq::<SVal>::empty()); }")])
    u.fn("src/types/column/column_data.rs", "trait ColumnData", "fn save_keys", hints=[("start", "", "proof { assert(self.cells().subrange(0, self.cells().len() as int) =~= self.cells()); }")])
    u.fn(*IS, "fn len")
    u.fn(*IS, "fn push", rewrites=PUT + [(r"value\.into\(\)", "Value::into_bytes(value)", "From<Value> for Vec<u8> through its contract"), (r"s\.as_ref\(\)", "s.as_slice()", "AsRef<[u8]> for Vec<u8> is as_slice")],
         hints=[("end", "", "proof { assert(self.pool.str(old(self).pool.n() as int) =~= value->String_0@); assert(self.cells() =~= old(self).cells().push(old(self).stored(value))); }")])
    u.fn(*IS, "fn at", rewrites=[(r"ValueRef::from\(s\)", "ValueRef::from_bytes(s)", "From<&[u8]> for ValueRef through its contract")])
    u.text("}")
    K.clone_instance(u, *IS, "StringColumnData")


def build():
    u = K.prelude("strings")
    u.text("""
pub proof fn vec_len<T>(v: &Vec<T>) ensures v@.len() <= usize::MAX { broadcast use vstd::std_specs::vec::group_vec_axioms; let n: usize = vstd::std_specs::vec::spec_vec_len(v); assert(n == v@.len()); }
""")
    pool(u)
    u.text("""
impl Clone for StringPool { #[verifier::external_body] fn clone(&self) -> (r: StringPool) ensures r.wf() == self.wf(), r.strs() == self.strs() { unimplemented!() } }
pub proof fn str_len(p: &StringPool, i: int) requires p.wf(), 0 <= i < p.n() ensures p.str(i).len() <= usize::MAX { vec_len(&p.chunks@[p.pointers@[i].chunk as int]); }
""")
    column(u)
    u.text("} fn main() {}")
    return u
