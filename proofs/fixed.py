"""Fixed-length strings (P15)."""
from . import cols as K

F = "src/types/column/fixed_string.rs"
I = (F, "impl ^impl ColumnData for FixedStringColumnData$")
A = (F, r"impl ^impl<K: ColumnType> ColumnData for FixedStringAdapter<K>$")

SPEC = """
pub open spec fn fix_cells(buf: Seq<u8>, w: nat) -> Seq<SVal> { Seq::new(buf.len() / w, |i: int| SVal::Str(buf.subrange(i * w, i * w + w))) }
// right padding with zero bytes; what does not fit is cut off
pub open spec fn pad(s: Seq<u8>, w: nat) -> Seq<u8> { if s.len() >= w { s.take(w as int) } else { s + Seq::new((w - s.len()) as nat, |i: int| 0u8) } }
pub proof fn lemma_mul(a: int, b: int, w: int) requires 0 <= a <= b, w >= 0 ensures 0 <= a * w <= b * w { assert(a * w <= b * w) by (nonlinear_arith) requires a <= b, w >= 0; assert(0 <= a * w) by (nonlinear_arith) requires 0 <= a, w >= 0; }
pub proof fn lemma_div(n: int, w: int) requires n >= 0, w > 0 ensures (n * w) / w == n, n * w + w == (n + 1) * w, (n * w + w) / w == n + 1
{ assert((n * w) / w == n) by (nonlinear_arith) requires w > 0; assert(n * w + w == (n + 1) * w) by (nonlinear_arith); assert(((n + 1) * w) / w == n + 1) by (nonlinear_arith) requires w > 0; }
pub open spec fn fix_wf(buf: Seq<u8>, w: nat) -> bool { w > 0 && buf.len() == (buf.len() / w) * w }
// the bytes of rows a..b are the concatenation of these rows
pub proof fn lemma_fix_cat(buf: Seq<u8>, w: usize, a: int, b: int)
    requires fix_wf(buf, w as nat), 0 <= a <= b <= buf.len() / (w as nat),
    ensures 0 <= a * w <= b * w <= buf.len(), all_ok(SqlType::FixedString(w), fix_cells(buf, w as nat).subrange(a, b)),
        cat(SqlType::FixedString(w), fix_cells(buf, w as nat).subrange(a, b)) == buf.subrange(a * w, b * w)
    decreases b - a
{
    let n = buf.len() / (w as nat);
    lemma_mul(a, b, w as int); lemma_mul(b, n as int, w as int);
    let cs = fix_cells(buf, w as nat);
    if a < b {
        lemma_fix_cat(buf, w, a, b - 1);
        lemma_div(b - 1, w as int); lemma_mul(a, b - 1, w as int);
        assert(cs.subrange(a, b).drop_last() =~= cs.subrange(a, b - 1));
        assert(cs.subrange(a, b).last() == cs[b - 1]);
        assert(buf.subrange(a * w, b * w) =~= buf.subrange(a * w, (b - 1) * w) + buf.subrange((b - 1) * w, (b - 1) * w + w));
        assert(buf.subrange((b - 1) * w, (b - 1) * w + w).len() == w);
        assert forall|i: int| 0 <= i < b - a implies cell_ok(SqlType::FixedString(w), #[trigger] cs.subrange(a, b)[i]) by {
            if i < b - a - 1 { assert(cs.subrange(a, b)[i] == cs.subrange(a, b - 1)[i]); }
        }
    } else {
        assert(cs.subrange(a, b) =~= Seq::<SVal>::empty());
        assert(buf.subrange(a * w, b * w) =~= Seq::<u8>::empty());
    }
}
pub proof fn lemma_fix_push(buf: Seq<u8>, c: Seq<u8>, w: nat)
    requires fix_wf(buf, w), c.len() == w
    ensures fix_wf(buf + c, w), fix_cells(buf + c, w) == fix_cells(buf, w).push(SVal::Str(c)), (buf + c).len() / w == buf.len() / w + 1
{
    let n = (buf.len() / w) as int;
    lemma_div(n, w as int);
    assert((buf + c).len() == n * w + w);
    assert forall|i: int| 0 <= i < n implies #[trigger] fix_cells(buf + c, w)[i] == fix_cells(buf, w)[i] by {
        lemma_div(i, w as int); lemma_mul(i, n - 1, w as int); lemma_mul(i + 1, n, w as int);
        assert((buf + c).subrange(i * w, i * w + w) =~= buf.subrange(i * w, i * w + w));
    }
    assert((buf + c).subrange(n * w, n * w + w) =~= c);
    assert(fix_cells(buf + c, w) =~= fix_cells(buf, w).push(SVal::Str(c)));
}
pub mod cmp {
    use super::*;
    pub fn min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
}
// Extend<&u8> for Vec<u8> over the first l bytes of a slice
#[verifier::external_body] pub fn extend_take(v: &mut Vec<u8>, s: &[u8], l: usize)
    ensures final(v)@ == old(v)@ + s@.take(if l <= s@.len() { l as int } else { s@.len() as int }) { v.extend(s.iter().take(l)) }
#[verifier::external_body] pub fn never() -> ! requires false { unimplemented!() }
"""
PANIC = (r"\{\s*let from = SqlType::from\([^;]*\);\s*panic!\([^)]*\);?\s*\}", "{ never() }", "panic branch for another value type: must be unreachable under the precondition")


def common(u):
    u.text(SPEC)
    u.fn("src/types/value.rs", "fn get_str_buffer", vis="pub", spec="requires value is String ensures r@ == value->String_0@", rewrites=[PANIC])


def add(u):
    u.item(F, "struct FixedStringColumnData", rewrites=[(r"\bbuffer:", "pub buffer:", "field visibility"), (r"\bstr_len:", "pub str_len:", "field visibility")])
    u.text("impl FixedStringColumnData {")
    u.fn(F, "impl ^impl FixedStringColumnData$", "fn with_capacity", vis="pub",
         spec="requires capacity * str_len <= usize::MAX ensures r.buffer@.len() == 0, r.str_len == str_len")
    u.fn(F, "impl ^impl FixedStringColumnData$", "fn load", vis="pub", loops=[dict(head=r"^for i in 0\.\.size$", spec="""
            invariant instance.str_len == str_len, str_len > 0, size * str_len <= usize::MAX,
                same_end(*reader, *old(reader)),
                instance.buffer@.len() == i * str_len, 
                instance.buffer@.len() <= old(reader).rest().len(),
                instance.buffer@ == old(reader).rest().take(instance.buffer@.len() as int),
                reader.rest() == old(reader).rest().skip(instance.buffer@.len() as int)""",
            start="let ghost buf0 = instance.buffer@; let ghost rest0 = reader.rest(); proof { lemma_div(i as int, str_len as int); lemma_mul(i + 1, size as int, str_len as int); }",
            end="""proof {
                let r0 = old(reader).rest();
                assert(instance.buffer@ =~= buf0 + rest0.take(str_len as int));
                assert(r0.take(instance.buffer@.len() as int) =~= buf0 + r0.skip(buf0.len() as int).take(str_len as int));
                assert(reader.rest() =~= r0.skip(instance.buffer@.len() as int));
            }""",
            after="""proof {
                let r0 = old(reader).rest(); let b = instance.buffer@;
                lemma_div(size as int, str_len as int);
                lemma_fix_cat(b, str_len, 0, size as int);
                assert(fix_cells(b, str_len as nat).subrange(0, size as int) =~= fix_cells(b, str_len as nat));
                assert(b.subrange(0, size * str_len) =~= b);
                assert(r0.skip(r0.len() - reader.rest().len()) =~= reader.rest());
                assert(r0.take(r0.len() - reader.rest().len()) =~= b);
            }""",
            before="proof { assert(0 * str_len == 0); assert(old(reader).rest().take(0) =~= Seq::<u8>::empty()); assert(old(reader).rest().skip(0) =~= old(reader).rest()); }")],
         rewrites=[(r"for _ in 0\.\.size", "for i in 0..size", "loop counter named"),
                   (r"&mut instance\.buffer\[", "&mut instance.buffer.as_mut_slice()[", "range of a Vec taken through as_mut_slice")],
         spec="""requires str_len > 0, size * str_len <= usize::MAX
            ensures same_end(*final(reader), *old(reader)),
            r matches Ok(c) ==> c.wf() && c.ty() == SqlType::FixedString(str_len) && c.cells().len() == size && took(c.ty(), c.cells(), old(reader).rest(), final(reader).rest()),
            old(reader).steady() && old(reader).rest().len() >= size * str_len ==> r is Ok""")
    u.text("""}
impl ColumnData for FixedStringColumnData {
    open spec fn wf(&self) -> bool { fix_wf(self.buffer@, self.str_len as nat) }
    open spec fn ty(&self) -> SqlType { SqlType::FixedString(self.str_len) }
    open spec fn cells(&self) -> Seq<SVal> { fix_cells(self.buffer@, self.str_len as nat) }
    open spec fn dict(&self) -> bool { true }
    open spec fn takes(&self, v: Value) -> bool { v is String }
    open spec fn stored(&self, v: Value) -> SVal { SVal::Str(pad(v->String_0@, self.str_len as nat)) }""")
    BOUNDS = "proof { lemma_mul(start as int, end as int, self.str_len as int); lemma_mul(end as int, self.cells().len() as int, self.str_len as int); self.buffer.len(); }"
    u.fn(*I, "fn sql_type")
    u.fn(*I, "fn save", hints=[("start", "", """proof { lemma_fix_cat(self.buffer@, self.str_len, start as int, end as int); assert(self.buffer@.len() <= usize::MAX) by { vec_len(&self.buffer); } }"""),
                               ("end", "", """proof {
            let o = old(encoder)@; let f = encoder@;
            assert(f.take(o.len() as int) =~= o);
            assert(f.skip(o.len() as int) =~= self.buffer@.subrange(start * self.str_len, end * self.str_len));
        }""")])
    u.fn("src/types/column/column_data.rs", "trait ColumnData", "fn save_keys", hints=[("start", "", "proof { assert(self.cells().subrange(0, self.cells().len() as int) =~= self.cells()); }")])
    u.fn(*I, "fn len")
    u.fn(*I, "fn push", rewrites=[(r"self\.buffer\.extend\(bs\.iter\(\)\.take\(l\)\)", "extend_take(&mut self.buffer, bs, l)", "Vec::extend over a slice iterator through a stub")],
         hints=[("before", r"self\.buffer\.resize", "let ghost mid = self.buffer@; proof { assume(old_len + self.str_len <= usize::MAX); }"),
                ("end", "", """proof {
            let w = self.str_len as nat; let s = value->String_0@;
            let n = old(self).buffer@.len();
            assert(mid =~= old(self).buffer@ + s.take(if s.len() <= w { s.len() as int } else { w as int }));
            assert(forall|i: int| 0 <= i < mid.len() ==> self.buffer@[i] == mid[i]);
            assert(forall|i: int| mid.len() <= i < n + w ==> self.buffer@[i] == 0u8);
            assert(pad(s, w).len() == w);
            assert(self.buffer@.len() == n + w);
            assert forall|i: int| 0 <= i < n + w implies self.buffer@[i] == (old(self).buffer@ + pad(s, w))[i] by {
                if i < mid.len() { assert(self.buffer@[i] == mid[i]); } else { assert(self.buffer@[i] == 0u8); }
            }
            assert(self.buffer@ =~= old(self).buffer@ + pad(s, w));
            lemma_fix_push(old(self).buffer@, pad(s, w), w);
        }""")])
    u.fn(*I, "fn at", hints=[("start", "", """proof { lemma_fix_cat(self.buffer@, self.str_len, index as int, index + 1); lemma_div(index as int, self.str_len as int); vec_len(&self.buffer); }""")])
    u.text("}")
    K.clone_instance(u, *I, "FixedStringColumnData")


ADAPT = """
pub trait ColumnType {}
// Column: a name and dynamically dispatched data; `at` is its only use here
pub struct Column<K> { pub data: ArcColumnData, pub k: K }
impl<K> Column<K> {
    pub fn at(&self, index: usize) -> (r: ValueRef) requires self.data.wf(), index < self.data.cells().len() ensures r.sv() == self.data.cells()[index as int] { self.data.at(index) }
}
"""


def build():
    u = K.prelude("fixed")
    common(u)
    u.text("pub proof fn vec_len(v: &Vec<u8>) ensures v@.len() <= usize::MAX { broadcast use vstd::std_specs::vec::group_vec_axioms; let n: usize = vstd::std_specs::vec::spec_vec_len(v); assert(n == v@.len()); }")
    add(u)
    u.text("} fn main() {}")
    return u
