"""LowCardinality columns: dictionary and index (P11)."""
from . import cols as K
from . import wire as W
from . import numeric as N
from . import nullable as NU

P = "src/types/column/low_cardinality.rs"
IX = (P, "impl ^impl LowCardinalityIndex$")
IC = (P, "impl ^impl ColumnData for LowCardinalityColumnData$")

SPEC = """
pub open spec fn map_ok(m: ValueMap, c: ArcColumnData) -> bool {
    forall|k: Value, i: usize| #[trigger] m.has(k, i) ==> i < c.cells().len() && (key_like(k) ==> c.stored(k) == c.cells()[i as int])
}
// values used as dictionary keys: equality of two such values means that a column stores the same cell for them.
// (floats are left out: 0.0 == -0.0; composite values are never keys)
pub open spec fn key_like(v: Value) -> bool decreases v {
    match v {
        Value::Float32(_) | Value::Float64(_) | Value::Array(_, _) | Value::Map(_, _, _) => false,
        Value::Nullable(Either::Right(b)) => key_like(*b),
        _ => true,
    }
}
pub uninterp spec fn value_eq(a: Value, b: Value) -> bool;      // PartialEq for Value (see the values unit)
pub uninterp spec fn owned(v: ValueRef) -> Value;               // From<ValueRef> for Value
#[verifier::external_body] pub fn value_of(v: ValueRef) -> (r: Value) ensures r == owned(v) { unimplemented!() }
// equal keys are the same cell; a cell that was read from a column and is pushed into it is that cell (trusted)
#[verifier::external_body] pub proof fn axiom_equal_keys(c: ArcColumnData, a: Value, b: Value) requires value_eq(a, b), key_like(a) || key_like(b) ensures c.stored(a) == c.stored(b), key_like(a), key_like(b) {}
#[verifier::external_body] pub proof fn axiom_restore(c: ArcColumnData, v: ValueRef, i: int) requires c.wf(), 0 <= i < c.cells().len(), v.sv() == c.cells()[i], of_kind(v, c.ty()) ensures c.stored(owned(v)) == c.cells()[i] {}
// std HashMap<Value, usize>: the pairs it holds
#[verifier::external_body] pub struct ValueMap { _p: () }
impl ValueMap {
    pub uninterp spec fn has(&self, k: Value, i: usize) -> bool;
    #[verifier::external_body] pub fn new() -> (r: ValueMap) ensures forall|k: Value, i: usize| !(#[trigger] r.has(k, i)) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Value, i: usize) ensures forall|x: Value, j: usize| #[trigger] final(self).has(x, j) ==> old(self).has(x, j) || (x == k && j == i) || (j == i && value_eq(x, k) && exists|j0: usize| old(self).has(x, j0)) { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &Value) -> (r: Option<&usize>) ensures *final(self) == *old(self), r matches Some(i) ==> exists|x: Value| value_eq(x, *k) && #[trigger] old(self).has(x, *i) { unimplemented!() }
}
pub fn map_insert(m: &mut ValueMap, k: Value, i: usize, c: &ArcColumnData)
    requires map_ok(*old(m), *c), i < c.cells().len(), key_like(k) ==> c.stored(k) == c.cells()[i as int] ensures map_ok(*final(m), *c)
{
    let ghost m0 = *m;
    m.insert(k, i);
    proof { assert forall|x: Value, j: usize| #[trigger] m.has(x, j) implies j < c.cells().len() && (key_like(x) ==> c.stored(x) == c.cells()[j as int]) by {
        if !m0.has(x, j) && x != k && key_like(x) { axiom_equal_keys(*c, x, k); } } }
}
#[verifier::external_body] pub fn bool_u8(b: bool) -> (r: u8) ensures r == (if b { 1u8 } else { 0u8 }) { unimplemented!() }
// name of a nullable type (decided by the factory; Nullable(Nullable(..)) is not a type)
#[verifier::external_body] pub fn parse_nullable_type(source: &str) -> (r: Option<&str>)
    ensures match r {
        Some(n) => forall|tz: Tz| #[trigger] name_type(n@, tz) matches Some(t) ==> !(t is Nullable) && name_type(source@, tz) == Some(SqlType::Nullable(&t)),
        None => forall|tz: Tz| #[trigger] name_type(source@, tz) matches Some(t) ==> !(t is Nullable),
    } { unimplemented!() }
// an empty column of a type (dispatch on the type)
#[verifier::external_body] pub fn from_type(t: SqlType, tz: Tz, capacity: usize) -> (r: Result<ArcColumnData>)
    ensures r matches Ok(c) ==> c.wf() && c.ty() == t && c.cells() == Seq::<SVal>::empty() && as_dict(c) { unimplemented!() }
// what every column made by the dispatch functions satisfies: it may be a dictionary, and takes NULL where its type does
pub open spec fn as_dict(c: ArcColumnData) -> bool {
    c.dict() && (c.ty() matches SqlType::Nullable(n) ==> c.takes(Value::Nullable(Either::Left(n))))
}
#[verifier::external_body] pub proof fn axiom_loaded(c: ArcColumnData, name: &str, tz: Tz) requires Some(c.ty()) == name_type(name@, tz) ensures as_dict(c) {}
#[verifier::external_body] pub fn arc_nullable(c: NullableColumnData) -> (r: ArcColumnData)
    ensures r.wf() == c.wf(), r.ty() == c.ty(), r.cells() == c.cells(), r.dict() == c.dict() { unimplemented!() }
#[verifier::external_body] pub fn arc_mut_of(a: &mut ArcColumnData) -> (r: &mut dyn ColumnData)
    ensures r.wf() == old(a).wf(), r.ty() == old(a).ty(), r.cells() == old(a).cells(), r.dict() == old(a).dict(),
        forall|v: Value| #[trigger] r.takes(v) == old(a).takes(v), forall|v: Value| #[trigger] r.stored(v) == old(a).stored(v),
        final(a).wf() == final(r).wf(), final(a).ty() == final(r).ty(), final(a).cells() == final(r).cells(), final(a).dict() == final(r).dict(),
        forall|v: Value| #[trigger] final(a).takes(v) == final(r).takes(v), forall|v: Value| #[trigger] final(a).stored(v) == final(r).stored(v) { unimplemented!() }
"""

ISPEC = """
impl LowCardinalityIndex {
    pub open spec fn ix(&self) -> Seq<nat> {
        match self {
            LowCardinalityIndex::UInt8(u) => Seq::new(u.data.data@.len(), |i: int| u.data.data@[i] as nat),
            LowCardinalityIndex::UInt16(u) => Seq::new(u.data.data@.len(), |i: int| u.data.data@[i] as nat),
            LowCardinalityIndex::UInt32(u) => Seq::new(u.data.data@.len(), |i: int| u.data.data@[i] as nat),
            LowCardinalityIndex::UInt64(u) => Seq::new(u.data.data@.len(), |i: int| u.data.data@[i] as nat),
        }
    }
    pub proof fn lemma_fits(&self) ensures fits(self.ix(), self.w()) { lemma_p256(); }
    // the derived Clone (as an inherent method)
    #[verifier::external_body] pub fn copy_(&self) -> (r: Self) ensures r.ix() == self.ix(), r.w() == self.w() { unimplemented!() }
    pub open spec fn w(&self) -> nat {
        match self { LowCardinalityIndex::UInt8(_) => 1, LowCardinalityIndex::UInt16(_) => 2, LowCardinalityIndex::UInt32(_) => 4, LowCardinalityIndex::UInt64(_) => 8 }
    }
"""
ILEM = "".join(f"""
pub proof fn lemma_idx_{t}(d: Seq<{t}>, n: int) requires 0 <= n <= d.len()
    ensures idx_bytes(Seq::new(d.len(), |i: int| d[i] as nat).take(n), {w}) == elems(d.take(n)), elems(d.take(n)).len() == {w} * n decreases n
{{
    let s = Seq::new(d.len(), |i: int| d[i] as nat);
    if n > 0 {{ lemma_idx_{t}(d, n - 1); assert(s.take(n).drop_last() =~= s.take(n - 1)); assert(d.take(n).drop_last() =~= d.take(n - 1)); lemma_le_len(d[n - 1] as nat, {w}); }}
    else {{ assert(s.take(0) =~= Seq::<nat>::empty()); assert(d.take(0) =~= Seq::<{t}>::empty()); }}
}}
pub proof fn lemma_index_{t}(d: Seq<{t}>) ensures idx_bytes(Seq::new(d.len(), |i: int| d[i] as nat), {w}) == elems(d), elems(d).len() == {w} * d.len()
{{ let n = d.len() as int; lemma_idx_{t}(d, n); assert(d.take(n) =~= d); let s = Seq::new(d.len(), |i: int| d[i] as nat); assert(s.take(n) =~= s); }}
""" for t, w in (("u8", 1), ("u16", 2), ("u32", 4), ("u64", 8)))

CSPEC = """
pub proof fn lemma_le_from_le(s: Seq<u8>) ensures le(from_le(s), s.len()) == s decreases s.len()
{ if s.len() > 0 { lemma_le_from_le(s.skip(1)); let r = from_le(s.skip(1)); assert(from_le(s) == s[0] as nat + 256 * r); assert(from_le(s) % 256 == s[0] as nat); assert(from_le(s) / 256 == r); assert(le(from_le(s), s.len()) =~= s); } }
pub proof fn lemma_word64(s: Seq<u8>) requires s.len() == 8 ensures s == le((from_le(s) as u64) as nat, 8), from_le(s) < 0x1_0000_0000_0000_0000
{ lemma_le_from_le(s); lemma_from_le_bound(s); lemma_p256(); }
pub open spec fn lc_cells(keys: Seq<SVal>, ix: Seq<nat>) -> Seq<SVal> { Seq::new(ix.len(), |i: int| keys[ix[i] as int]) }
pub open spec fn in_range(ix: Seq<nat>, n: nat) -> bool { forall|i: int| 0 <= i < ix.len() ==> #[trigger] ix[i] < n }
pub open spec fn fits(ix: Seq<nat>, w: nat) -> bool { forall|i: int| 0 <= i < ix.len() ==> #[trigger] ix[i] < p256(w) }
pub open spec fn lc_head2(w: nat, nkeys: nat) -> Seq<u8> { le(1, 8) + le(lc_flags(w), 8) + le(nkeys, 8) }
pub proof fn lemma_empty_enc(t: SqlType, b: Seq<u8>) requires is_enc(t, Seq::empty(), b) ensures b.len() == 0 decreases t
{
    let e = Seq::<SVal>::empty();
    match t {
        SqlType::Nullable(inner) => {
            let vals = choose|vals: Seq<SVal>| #[trigger] same_where_set(e, vals) && b.len() >= 0 && nulls_ok(e, b.take(0)) && is_enc(*inner, vals, b.skip(0));
            assert(vals =~= e); assert(b.skip(0) =~= b); lemma_empty_enc(*inner, b);
        }
        SqlType::Array(inner) => { assert(b.skip(0) =~= b); assert(flat(e) =~= e); lemma_empty_enc(*inner, b); }
        SqlType::Map(k, v) => {
            assert(keys_of(e) =~= e); assert(vals_of(e) =~= e); assert(flat(e) =~= e);
            let m = choose|m: int| 0 <= m <= b.len() && b.take(0) == offs(e) && is_enc(*k, flat(e), #[trigger] b.subrange(0, m)) && is_enc(*v, flat(e), b.skip(m));
            lemma_empty_enc(*k, b.subrange(0, m)); lemma_empty_enc(*v, b.skip(m));
        }
        SqlType::SimpleAggregateFunction(_, inner) => { lemma_empty_enc(*inner, b); }
        _ => {}
    }
}
// the pieces written by save / consumed by load make up the encoding
pub proof fn lemma_lc(inner: SqlType, keys: Seq<SVal>, all: Seq<nat>, a: int, b: int, w: nat, kb: Seq<u8>, body: Seq<u8>)
    requires 0 <= a < b <= all.len(), in_range(all, keys.len()), fits(all, w), w == 1 || w == 2 || w == 4 || w == 8, is_kenc(inner, keys, kb),
        body == lc_head(w, keys.len()) + kb + le((b - a) as nat, 8) + idx_bytes(all.subrange(a, b), w)
    ensures is_enc(SqlType::LowCardinality(&inner), lc_cells(keys, all).subrange(a, b), body)
{
    let ix = all.subrange(a, b); let cs = lc_cells(keys, all).subrange(a, b);
    assert forall|i: int| 0 <= i < ix.len() implies #[trigger] ix[i] < keys.len() && ix[i] < p256(w) && cs[i] == keys[ix[i] as int] by { assert(all[a + i] == ix[i]); }
    assert(denotes(cs, keys, ix, w)); assert(lc_body(body, w, keys.len(), kb, ix));
}
"""

LOOPRW = [(r"\((0\.\.[^()]*(?:\(\))?)\)\s*\.all\(\|(\w+)\| (.*?)\);", r"{ let mut all_ = true; for \2 in \1 { if !(\3) { all_ = false; } } all_ };", "Iterator::all as a loop"),
          (r"\((0\.\.inner\.len\(\))\)\.map\(\|key\| (.*?)\)\.collect\(\);", r"{ let mut out_: Vec<u8> = Vec::new(); for key in \1 { out_.push(\2); } out_ };", "map(..).collect() as a loop"),
          (r"u8::from\(", "bool_u8(", "u8::from(bool) through a stub")]


def index(u):
    for c in ("NEED_GLOBAL_DICTIONARY_BIT", "HAS_ADDITIONAL_KEYS_BIT", "NEED_UPDATE_DICTIONARY_BIT", "TUINT8", "TUINT16", "TUINT32", "TUINT64", "LOW_CARDINALITY_VERSION", "INDEX_TYPE_MASK"):
        u.item(P, f"const {c}", rewrites=[(r"^const", "pub const", "visible to specifications")])
    u.item(P, "enum IndexType", attrs="#[derive(Clone, Copy)]", rewrites=[(r"^enum", "pub enum", "visible to specifications")])
    u.text("""
pub open spec fn ixw(t: IndexType) -> nat { match t { IndexType::UInt8 => 1, IndexType::UInt16 => 2, IndexType::UInt32 => 4, IndexType::UInt64 => 8 } }
impl IndexType {""")
    u.fn(P, "impl ^impl IndexType$", "fn from_flags", vis="pub", spec="ensures r matches Ok(t) ==> flags & INDEX_TYPE_MASK == (match t { IndexType::UInt8 => 0u64, IndexType::UInt16 => 1, IndexType::UInt32 => 2, IndexType::UInt64 => 3 }), flags == 0x600 || flags == 0x601 || flags == 0x602 || flags == 0x603 ==> r is Ok", hints=[("start", "", "proof { assert(0x600u64 & 0xff == 0 && 0x601u64 & 0xff == 1 && 0x602u64 & 0xff == 2 && 0x603u64 & 0xff == 3) by (compute); }")])
    u.text("}")
    u.item(P, "enum LowCardinalityIndex", attrs="")
    u.text(ISPEC)
    u.fn(*IX, "fn get_flags", vis="pub", spec="ensures r == lc_flags(self.w())", hints=[("start", "", "proof { assert(TUINT8 | HAS_ADDITIONAL_KEYS_BIT | NEED_UPDATE_DICTIONARY_BIT == 0x600) by (compute); assert(TUINT16 | HAS_ADDITIONAL_KEYS_BIT | NEED_UPDATE_DICTIONARY_BIT == 0x601) by (compute); assert(TUINT32 | HAS_ADDITIONAL_KEYS_BIT | NEED_UPDATE_DICTIONARY_BIT == 0x602) by (compute); assert(TUINT64 | HAS_ADDITIONAL_KEYS_BIT | NEED_UPDATE_DICTIONARY_BIT == 0x603) by (compute); }")])
    u.fn(*IX, "fn load", vis="pub", spec="""ensures same_end(*final(reader), *old(reader)),
        r matches Ok(c) ==> c.ix().len() == size && c.w() == ixw(type_) && size * ixw(type_) <= old(reader).rest().len()
            && idx_bytes(c.ix(), c.w()) == old(reader).rest().take(size * ixw(type_)) && final(reader).rest() == old(reader).rest().skip(size * ixw(type_)) && fits(c.ix(), c.w())""",
         hints=[("before", r"Ok\(match type_", "let r = "), ("end", "", """; proof { lemma_p256();
            match &r { Ok(LowCardinalityIndex::UInt8(u)) => { lemma_index_u8(u.data@); } Ok(LowCardinalityIndex::UInt16(u)) => { lemma_index_u16(u.data@); } Ok(LowCardinalityIndex::UInt32(u)) => { lemma_index_u32(u.data@); } Ok(LowCardinalityIndex::UInt64(u)) => { lemma_index_u64(u.data@); } _ => {} } } r""")])
    u.fn(*IX, "fn len", vis="pub", spec="ensures r == self.ix().len()")
    u.fn(*IX, "fn get_by_index", vis="pub", spec="requires index < self.ix().len() ensures r == self.ix()[index as int]")
    u.fn(*IX, "fn max_len", vis="pub", spec="ensures r + 1 == p256(self.w())", hints=[("start", "", "proof { lemma_p256(); }")])
    u.fn(*IX, "fn inc_max_len", vis="pub", spec="requires self.w() < 8 ensures r.w() == 2 * self.w(), r.ix() == self.ix()",
         rewrites=[(r"u\.data\.map\(\|v\| v as (u\d+)\)", r"u.data.map(|v| -> (r_: \1) ensures r_ == v as \1 { v as \1 })", "postcondition written on the closure"), (r"unreachable!\(\)", "never()", "must be unreachable")],
         hints=[("after", r"let data = u\.data\.map[^;]*v as u16 \}\);", "proof { assert(Seq::new(data@.len(), |i: int| data@[i] as nat) =~= self.ix()); }"), ("after", r"let data = u\.data\.map[^;]*v as u32 \}\);", "proof { assert(Seq::new(data@.len(), |i: int| data@[i] as nat) =~= self.ix()); }"), ("after", r"let data = u\.data\.map[^;]*v as u64 \}\);", "proof { assert(Seq::new(data@.len(), |i: int| data@[i] as nat) =~= self.ix()); }")])
    u.fn(*IX, "fn push", vis="pub", spec="ensures final(self).ix() == old(self).ix().push(value as nat)",
         loops=[dict(head=r"^while value > self\.max_len\(\)$", spec="invariant self.ix() == old(self).ix() decreases 8 - self.w()", start="proof { lemma_p256(); }")],
         hints=[("before", r"match self \{", "proof { lemma_p256(); }"), ("end", "", "proof { assert(self.ix() =~= old(self).ix().push(value as nat)); }")])
    u.fn(*IX, "fn save", vis="pub", spec="requires start <= end <= self.ix().len() ensures final(encoder)@ == old(encoder)@ + idx_bytes(self.ix().subrange(start as int, end as int), self.w())",
         hints=[("end", "", """; proof {
            match self { LowCardinalityIndex::UInt8(u) => { lemma_cut_u8(u.data@, start as int, end as int); } LowCardinalityIndex::UInt16(u) => { lemma_cut_u16(u.data@, start as int, end as int); } LowCardinalityIndex::UInt32(u) => { lemma_cut_u32(u.data@, start as int, end as int); } LowCardinalityIndex::UInt64(u) => { lemma_cut_u64(u.data@, start as int, end as int); } }
            let o = old(encoder)@; let f = encoder@; assert(f =~= f.take(o.len() as int) + f.skip(o.len() as int)); }""")])
    u.text("}")
    u.text("".join(f"""
pub proof fn lemma_cut_{t}(d: Seq<{t}>, a: int, b: int) requires 0 <= a <= b <= d.len()
    ensures cat(SqlType::{k}, ncells(d).subrange(a, b)) == idx_bytes(Seq::new(d.len(), |i: int| d[i] as nat).subrange(a, b), {w})
{{ lemma_num_cat(d, a, b); lemma_index_{t}(d.subrange(a, b)); assert(Seq::new(d.len(), |i: int| d[i] as nat).subrange(a, b) =~= Seq::new(d.subrange(a, b).len(), |i: int| d.subrange(a, b)[i] as nat)); }}
""" for t, k, w in (("u8", "UInt8", 1), ("u16", "UInt16", 2), ("u32", "UInt32", 4), ("u64", "UInt64", 8))))
    u.text(ILEM)


def column(u):
    u.item(P, "struct LowCardinalityColumnData", rewrites=[(r"HashMap<Value, usize>", "ValueMap", "HashMap<Value, usize> through a stub")])
    u.text(CSPEC)
    u.fn(P, "fn push_null_key", vis="pub", rewrites=[(r"Arc::get_mut\(dictionary\)\s*\.expect\(\"[^\"]*\"\)", "arc_mut_of(dictionary)", "Arc::get_mut(..).expect(..) through a stub (a shared column panics)")],
         spec="""requires old(dictionary).wf(), old(dictionary).cells().len() == 0, as_dict(*old(dictionary))
        ensures final(dictionary).wf(), final(dictionary).ty() == old(dictionary).ty(), key_cells(final(dictionary).ty(), final(dictionary).cells()), final(dictionary).dict(),
            forall|v: Value| #[trigger] final(dictionary).takes(v) == old(dictionary).takes(v)""")
    u.fn(P, "fn read_prefix", vis="pub", spec="""ensures same_end(*final(reader), *old(reader)), r is Ok ==> old(reader).rest().len() >= 8 && old(reader).rest().take(8) == le(1, 8) && final(reader).rest() == old(reader).rest().skip(8)""",
         hints=[("after", r"let version: u64 = reader\.read_scalar\(\)\?;", "proof { lemma_word64(old(reader).rest().take(8)); }")])
    u.fn(P, "fn read_inner", vis="pub", rewrites=[K.LOADRW] + LOOPRW + [(r"Arc::new\(NullableColumnData", "arc_nullable(NullableColumnData", "Arc<dyn ColumnData> through a stub")],
         spec="""ensures same_end(*final(reader), *old(reader)),
        r matches Ok(p) ==> p.0.wf() && p.0.dict() && key_cells(p.0.ty(), p.0.cells()) && Some(p.0.ty()) == name_type(inner_type@, tz) && p.1.ix().len() == size && in_range(p.1.ix(), p.0.cells().len()) && fits(p.1.ix(), p.1.w())
            && took(SqlType::LowCardinality(&p.0.ty()), lc_cells(p.0.cells(), p.1.ix()), old(reader).rest(), final(reader).rest())""",
         loops=[dict(head=r"^for key in 0\.\.inner\.len\(\)$", spec="invariant inner.wf(), out_@.len() == key, forall|i: int| 0 <= i < key ==> #[trigger] out_@[i] == (if i == 0 { 1u8 } else { 0u8 })"),
                dict(head=r"^for i in 0\.\.keys\.len\(\)$", spec="invariant inner.wf(), all_ ==> forall|j: int| 0 <= j < i ==> #[trigger] keys.ix()[j] < inner.cells().len()")],
         hints=[("before", r"push_null_key\(&mut inner\);", "proof { axiom_loaded(inner, inner_type, tz); assert(inner.cells() =~= Seq::<SVal>::empty()); lemma_empty_enc(inner.ty(), old(reader).rest().take(old(reader).rest().len() - reader.rest().len())); }"),
                ("before", r"return Ok\(\(inner, keys\)\);", "proof { let r0 = old(reader).rest(); assert(0usize * ixw(IndexType::UInt8) == 0) by (nonlinear_arith); assert(reader.rest() =~= r0); assert(lc_cells(inner.cells(), keys.ix()) =~= Seq::<SVal>::empty()); assert(r0.take(0).len() == 0); assert(r0.skip(0) =~= r0); }"),
                ("after", r"let flags: u64 = reader\.read_scalar\(\)\?;", "let ghost r0 = old(reader).rest(); proof { lemma_word64(r0.skip(8).take(8)); }"),
                ("after", r"let new_index_column: u64 = reader\.read_scalar\(\)\?;", "let ghost r3 = reader.rest(); proof { lemma_word64(r0.skip(8).skip(8).take(8)); assert(r3 =~= r0.skip(24)); }"),
                ("before", r"if nested_type\.is_some\(\)", "let ghost r4 = reader.rest(); let ghost vals = inner.cells(); let ghost t0 = inner.ty(); proof { axiom_loaded(inner, if nested_type is Some { nested_type->Some_0 } else { inner_type }, tz); }"),
                ("after", r"let keys_rows: u64 = reader\.read_scalar\(\)\?;", "let ghost r5 = reader.rest(); proof { lemma_word64(r4.take(8)); }"),
                ("before", r"(?<!return )Ok\(\(inner, keys\)\)", """proof {
            let kb = r3.take(r3.len() - r4.len()); let w = keys.w(); let n = size as int;
            if nested_type is Some { assert(inner.cells().len() == vals.len()); assert(keys.ix()[0] < inner.cells().len()); assert(null_keys(inner.cells(), vals)); assert(is_kenc(t0, vals, kb)); }
            assert(is_kenc(inner.ty(), inner.cells(), kb));
            let rest = reader.rest(); let body = r0.take(r0.len() - rest.len());
            assert(r5 =~= r0.skip(32 + kb.len() as int));
            assert(rest =~= r0.skip(r0.len() - rest.len()));
            assert(body =~= r0.take(8) + r0.skip(8).take(8) + r0.skip(8).skip(8).take(8) + kb + r4.take(8) + r5.take(size * ixw(index_type)));
            assert(body =~= lc_head(w, inner.cells().len()) + kb + le((n - 0) as nat, 8) + idx_bytes(keys.ix(), w));
            assert(keys.ix().subrange(0, n) =~= keys.ix());
            lemma_lc(inner.ty(), inner.cells(), keys.ix(), 0, n, w, kb, body);
            assert(lc_cells(inner.cells(), keys.ix()).subrange(0, n) =~= lc_cells(inner.cells(), keys.ix()));
        }
        """)])
    u.text("impl LowCardinalityColumnData {")
    u.fn(P, "impl ^impl LowCardinalityColumnData$", "fn load", vis="pub", spec="""ensures same_end(*final(reader), *old(reader)),
        r matches Ok(c) ==> c.wf() && c.cells().len() == size && Some(c.inner.ty()) == name_type(inner_type@, tz) && took(c.ty(), c.cells(), old(reader).rest(), final(reader).rest())""")
    u.fn(P, "impl ^impl LowCardinalityColumnData$", "fn empty", vis="pub", rewrites=[(r"<dyn ColumnData>::from_type::<ArcColumnWrapper>\(", "from_type(", "dispatch by type through its contract")],
         spec="ensures r matches Ok(c) ==> c.wf() && c.inner.ty() == *inner && c.cells() == Seq::<SVal>::empty()",
         hints=[("before", r"Ok\(LowCardinalityColumnData", "let r = "), ("end", "", "; proof { assert(r->Ok_0.cells() =~= Seq::<SVal>::empty()); } r")])
    u.fn(P, "impl ^impl LowCardinalityColumnData$", "fn get_value_map", vis="pub",
         sig=[(r"HashMap<Value, usize>", "ValueMap", "HashMap<Value, usize> through a stub")],
         rewrites=[(r"\(0\.\.self\.index\.len\(\)\)\s*\.map\(\|index\| \{(.*)\((\w+), (\w+)\)\s*\}\)\s*\.collect\(\)", r"let mut map_ = ValueMap::new(); for index in 0..self.index.len() {\1 map_insert(&mut map_, \2, \3, &self.inner); } map_", "collect() of pairs into a map as a loop of insertions"),
                   (r"self\.inner\.at\(value_index\)\.into\(\)", "value_of(self.inner.at(value_index))", "From<ValueRef> for Value through a stub")],
         spec="requires self.wf() ensures map_ok(r, self.inner)",
         loops=[dict(head=r"^for index in 0\.\.self\.index\.len\(\)$", spec="invariant self.wf(), map_ok(map_, self.inner)")],
         hints=[("after", r"let value: Value = [^;]*;", "proof { let vr = choose|vr: ValueRef| value == owned(vr) && vr.sv() == self.inner.cells()[value_index as int] && of_kind(vr, self.inner.ty()); axiom_restore(self.inner, vr, value_index as int); }")])
    u.text("""}
impl ColumnData for LowCardinalityColumnData {
    open spec fn wf(&self) -> bool {
        self.inner.wf() && self.inner.dict() && key_cells(self.inner.ty(), self.inner.cells()) && in_range(self.index.ix(), self.inner.cells().len()) && fits(self.index.ix(), self.index.w())
            && (self.value_map matches Some(m) ==> map_ok(m, self.inner))
    }
    open spec fn ty(&self) -> SqlType { SqlType::LowCardinality(&self.inner.ty()) }
    open spec fn cells(&self) -> Seq<SVal> { lc_cells(self.inner.cells(), self.index.ix()) }
    open spec fn dict(&self) -> bool { true }
    open spec fn takes(&self, v: Value) -> bool { if is_null(v) { self.inner.ty() is Nullable } else { self.inner.takes(v) && key_like(v) } }
    open spec fn stored(&self, v: Value) -> SVal { if is_null(v) { SVal::Null } else { self.inner.stored(v) } }""")
    u.fn(*IC, "fn sql_type", rewrites=[(r"self\.inner\.sql_type\(\)\.into\(\)", "intern(self.inner.sql_type())", "SqlType -> &'static SqlType through the interning stub")])
    u.fn(*IC, "fn save", hints=[("before", r"return;", "proof { let o = old(encoder)@; assert(o.take(o.len() as int) =~= o); assert(o.skip(o.len() as int).len() == 0); }"),
        ("after", r"encoder\.write\(self\.inner\.len\(\) as u64\);", "let ghost e3 = encoder@;"), ("after", r"self\.inner\.save_keys\(encoder\);", "let ghost e4 = encoder@;"),
        ("end", "", """; proof {
            let o = old(encoder)@; let f = encoder@; let kb = e4.skip(e3.len() as int); let w = self.index.w();
            assert(e4 =~= e3 + kb) by { assert(e4.take(e3.len() as int) == e3); }
            assert(f =~= o + (lc_head(w, self.inner.cells().len()) + kb + le((end - start) as nat, 8) + idx_bytes(self.index.ix().subrange(start as int, end as int), w)));
            assert(f.take(o.len() as int) =~= o);
            let body = f.skip(o.len() as int);
            assert(body =~= lc_head(w, self.inner.cells().len()) + kb + le((end - start) as nat, 8) + idx_bytes(self.index.ix().subrange(start as int, end as int), w));
            lemma_lc(self.inner.ty(), self.inner.cells(), self.index.ix(), start as int, end as int, w, kb, body);
        }""")])
    K.default_keys(u, hints=[("start", "", "proof { assert(self.cells().subrange(0, self.cells().len() as int) =~= self.cells()); }")])
    u.fn(*IC, "fn len")
    u.fn(*IC, "fn push", rewrites=[K.GETMUT, (r"let value_map = loop \{\s*match self\.value_map \{\s*None => self\.value_map = Some\(self\.get_value_map\(\)\),\s*Some\(ref mut value_map\) => break value_map,\s*\};\s*\};",
                                              "if self.value_map.is_none() { self.value_map = Some(self.get_value_map()); } let value_map = self.value_map.as_mut().unwrap();", "loop that fills the Option and breaks with a reference to its contents, written as if + unwrap"),
                                  (r"value_map\.insert\(value, new_index\);", "map_insert(value_map, value, new_index, &self.inner);", "insertion followed by its lemma"),
                                  (r"Some\(index\) => (.*?),\s*\}", r"Some(index) => { proof { let x = choose|x: Value| value_eq(x, value) && #[trigger] m0.has(x, *index); axiom_equal_keys(self.inner, x, value); } \1; } }", "match arm braced to hold a proof block")],
         hints=[("before", r"return;", "proof { self.index.lemma_fits(); assert(self.cells() =~= old(self).cells().push(SVal::Null)); }"),
                ("before", r"match value_map\.get_mut", "let ghost m0 = *value_map; let ghost keys0 = self.inner.cells();"),
                ("end", "", "; proof { self.index.lemma_fits(); assert(self.cells() =~= old(self).cells().push(old(self).stored(value))); }")])
    u.fn(*IC, "fn at")
    u.text("}")
    K.clone_instance(u, *IC, "LowCardinalityColumnData", rewrites=[(r"self\.index\.clone\(\)", "self.index.copy_()", "derived Clone through its contract")])


def build():
    u = K.prelude("lowcard", ints=("u8", "u16", "u32", "u64"))
    K.lists(u, mapped=True)
    u.text(N.NUMCELL)
    for t in ("u8", "u16", "u32", "u64"):
        N.numcell(u, t)
    N.vector(u)
    u.text(K.LOADDATA)
    NU.add(u)
    u.text(SPEC)
    index(u)
    column(u)
    u.text("} fn main() {}")
    return u
