"""Shared vocabulary of the column units: the cell model, the wire relation `is_enc`, the
contract every ColumnData implementation is verified against, and the contracts of the
containers they are built from."""
from rsx import Unit
from . import common as C
from . import wire as W

TYPES = """
// ---- dependency types (opaque or transparent stand-ins) ----
#[derive(Clone, Copy)] pub struct Tz { pub id: u16 }
pub struct AppDateTime { pub secs: i64, pub nanos: u32, pub tz: Tz }
pub enum Either<A, B> { Left(A), Right(B) }
// std HashMap, seen through the sequence of pairs that were inserted (iteration yields each pair once)
pub struct HashMap<K, V> { pub es: Vec<(K, V)> }
"""

SVAL = """
// ---- cell model: what a cell means, independent of how a column stores it ----
pub enum SVal { Num(int), Bool(bool), F32(f32), F64(f64), Str(Seq<u8>), Addr(Seq<u8>), Chrono(AppDateTime), Arr(Seq<SVal>), Map(Seq<(SVal, SVal)>), Null, Just(Box<SVal>) }
pub open spec fn just(v: SVal) -> SVal { SVal::Just(Box::new(v)) }

impl<'a> ValueRef<'a> {
    pub open spec fn sv(self) -> SVal decreases self {
        match self {
            ValueRef::Bool(x) => SVal::Bool(x),
            ValueRef::UInt8(x) => SVal::Num(x as int), ValueRef::UInt16(x) => SVal::Num(x as int), ValueRef::UInt32(x) => SVal::Num(x as int),
            ValueRef::UInt64(x) => SVal::Num(x as int), ValueRef::UInt128(x) => SVal::Num(x as int),
            ValueRef::Int8(x) => SVal::Num(x as int), ValueRef::Int16(x) => SVal::Num(x as int), ValueRef::Int32(x) => SVal::Num(x as int),
            ValueRef::Int64(x) => SVal::Num(x as int), ValueRef::Int128(x) => SVal::Num(x as int),
            ValueRef::String(x) => SVal::Str(x@),
            ValueRef::Float32(x) => SVal::F32(x), ValueRef::Float64(x) => SVal::F64(x),
            ValueRef::Date(x) => SVal::Num(x as int), ValueRef::DateTime(x, _) => SVal::Num(x as int), ValueRef::DateTime64(x, _) => SVal::Num(x as int),
            ValueRef::Nullable(Either::Left(_)) => SVal::Null,
            ValueRef::Nullable(Either::Right(b)) => just(b.sv()),
            ValueRef::Array(_, vs) => SVal::Arr(Seq::new(vs@.len(), |i: int| if 0 <= i < vs@.len() { vs@[i].sv() } else { arbitrary() })),
            ValueRef::Decimal(d) => SVal::Num(d.underlying as int),
            ValueRef::Ipv4(b) => SVal::Addr(b@), ValueRef::Ipv6(b) => SVal::Addr(b@), ValueRef::Uuid(b) => SVal::Addr(b@),
            ValueRef::Enum16(_, e) => SVal::Num(e.0 as int), ValueRef::Enum8(_, e) => SVal::Num(e.0 as int),
            ValueRef::Map(_, _, m) => SVal::Map(Seq::new(m.es@.len(), |i: int| if 0 <= i < m.es@.len() { (m.es@[i].0.sv(), m.es@[i].1.sv()) } else { arbitrary() })),
        }
    }
}
impl Value {
    pub open spec fn sv(self) -> SVal decreases self {
        match self {
            Value::Bool(x) => SVal::Bool(x),
            Value::UInt8(x) => SVal::Num(x as int), Value::UInt16(x) => SVal::Num(x as int), Value::UInt32(x) => SVal::Num(x as int),
            Value::UInt64(x) => SVal::Num(x as int), Value::UInt128(x) => SVal::Num(x as int),
            Value::Int8(x) => SVal::Num(x as int), Value::Int16(x) => SVal::Num(x as int), Value::Int32(x) => SVal::Num(x as int),
            Value::Int64(x) => SVal::Num(x as int), Value::Int128(x) => SVal::Num(x as int),
            Value::String(x) => SVal::Str(x@),
            Value::Float32(x) => SVal::F32(x), Value::Float64(x) => SVal::F64(x),
            Value::Date(x) => SVal::Num(x as int), Value::DateTime(x, _) => SVal::Num(x as int), Value::DateTime64(x, _) => SVal::Num(x as int),
            Value::ChronoDateTime(t) => SVal::Chrono(t),
            Value::Nullable(Either::Left(_)) => SVal::Null,
            Value::Nullable(Either::Right(b)) => just(b.sv()),
            Value::Array(_, vs) => SVal::Arr(Seq::new(vs@.len(), |i: int| if 0 <= i < vs@.len() { vs@[i].sv() } else { arbitrary() })),
            Value::Decimal(d) => SVal::Num(d.underlying as int),
            Value::Ipv4(b) => SVal::Addr(b@), Value::Ipv6(b) => SVal::Addr(b@), Value::Uuid(b) => SVal::Addr(b@),
            Value::Enum16(_, e) => SVal::Num(e.0 as int), Value::Enum8(_, e) => SVal::Num(e.0 as int),
            Value::Map(_, _, m) => SVal::Map(Seq::new(m.es@.len(), |i: int| if 0 <= i < m.es@.len() { (m.es@[i].0.sv(), m.es@[i].1.sv()) } else { arbitrary() })),
        }
    }
}
// the kind of value a cell of a column of type t is presented as
pub open spec fn of_kind(v: ValueRef, t: SqlType) -> bool decreases t {
    match t {
        SqlType::Bool => v is Bool, SqlType::UInt8 => v is UInt8, SqlType::UInt16 => v is UInt16, SqlType::UInt32 => v is UInt32, SqlType::UInt64 => v is UInt64, SqlType::UInt128 => v is UInt128,
        SqlType::Int8 => v is Int8, SqlType::Int16 => v is Int16, SqlType::Int32 => v is Int32, SqlType::Int64 => v is Int64, SqlType::Int128 => v is Int128,
        SqlType::String | SqlType::FixedString(_) => v is String, SqlType::Float32 => v is Float32, SqlType::Float64 => v is Float64,
        SqlType::Date => v is Date, SqlType::DateTime(DateTimeType::DateTime64(p, tz)) => v is DateTime64 && *v->DateTime64_1 == (p, tz), SqlType::DateTime(_) => v is DateTime,
        SqlType::Ipv4 => v is Ipv4, SqlType::Ipv6 => v is Ipv6, SqlType::Uuid => v is Uuid,
        SqlType::Nullable(inner) => match v { ValueRef::Nullable(Either::Left(n)) => *n == *inner, ValueRef::Nullable(Either::Right(b)) => of_kind(*b, *inner), _ => false },
        SqlType::Array(inner) => v is Array && *v->Array_0 == *inner && forall|i: int| 0 <= i < v->Array_1@.len() ==> of_kind(#[trigger] v->Array_1@[i], *inner),
        SqlType::Map(k, x) => v is Map && *v->Map_0 == *k && *v->Map_1 == *x && forall|i: int| 0 <= i < v->Map_2.es@.len() ==> of_kind((#[trigger] v->Map_2.es@[i]).0, *k) && of_kind(v->Map_2.es@[i].1, *x),
        SqlType::Decimal(p, s) => v is Decimal && v->Decimal_0.precision == p && v->Decimal_0.scale == s,
        SqlType::Enum8(names) => v is Enum8 && v->Enum8_0 == names, SqlType::Enum16(names) => v is Enum16 && v->Enum16_0 == names,
        SqlType::SimpleAggregateFunction(_, inner) => of_kind(v, *inner),
        SqlType::LowCardinality(inner) => of_kind(v, *inner),
    }
}
pub open spec fn svs(vs: Seq<Value>) -> Seq<SVal> { Seq::new(vs.len(), |i: int| vs[i].sv()) }

// ---- wire relation: `b` is an encoding of `cells` as a column of type `t` ----
pub open spec fn twos(x: int, n: nat) -> nat { if x < 0 { (x + p256(n)) as nat } else { x as nat } }
pub open spec fn f32_bytes(f: f32) -> Seq<u8> { le(f32_bits(f) as nat, 4) }
pub open spec fn f64_bytes(f: f64) -> Seq<u8> { le(f64_bits(f) as nat, 8) }
pub open spec fn int_width(t: SqlType) -> nat {
    match t {
        SqlType::UInt8 | SqlType::Int8 | SqlType::Enum8(_) => 1,
        SqlType::UInt16 | SqlType::Int16 | SqlType::Enum16(_) | SqlType::Date => 2,
        SqlType::UInt32 | SqlType::Int32 => 4,
        SqlType::UInt64 | SqlType::Int64 => 8,
        SqlType::UInt128 | SqlType::Int128 => 16,
        SqlType::DateTime(DateTimeType::DateTime64(_, _)) => 8,
        SqlType::DateTime(_) => 4,
        SqlType::Decimal(p, _) => if p <= 9 { 4 } else { 8 },
        _ => 0,
    }
}
pub open spec fn signed(t: SqlType) -> bool {
    t is Int8 || t is Int16 || t is Int32 || t is Int64 || t is Int128 || t is Enum8 || t is Enum16 || t is Decimal || (t matches SqlType::DateTime(d) && d is DateTime64)
}
pub open spec fn num_ok(t: SqlType, x: int) -> bool {
    let m = p256(int_width(t)) as int; int_width(t) > 0 && if signed(t) { -m <= 2 * x < m } else { 0 <= x < m }
}
// an address or id in the byte order of the server (that is what such a cell holds); from its usual octets and back
pub open spec fn addr_bytes(t: SqlType, b: Seq<u8>) -> Seq<u8> {
    match t { SqlType::Ipv4 => b.reverse(), SqlType::Uuid => b.take(8).reverse() + b.skip(8).reverse(), _ => b }
}
pub open spec fn cell_ok(t: SqlType, c: SVal) -> bool {
    match t {
        SqlType::FixedString(n) => c is Str && c->Str_0.len() == n,
        SqlType::Bool => c is Bool,
        SqlType::Float32 => c is F32, SqlType::Float64 => c is F64,
        SqlType::Ipv4 => c is Addr && c->Addr_0.len() == 4,
        SqlType::Ipv6 | SqlType::Uuid => c is Addr && c->Addr_0.len() == 16,
        _ => c is Num && num_ok(t, c->Num_0),
    }
}
pub open spec fn cell_bytes(t: SqlType, c: SVal) -> Seq<u8> {
    match t {
        SqlType::FixedString(_) => c->Str_0,
        SqlType::Bool => seq![if c->Bool_0 { 1u8 } else { 0u8 }],
        SqlType::Float32 => f32_bytes(c->F32_0), SqlType::Float64 => f64_bytes(c->F64_0),
        SqlType::Ipv4 | SqlType::Ipv6 | SqlType::Uuid => c->Addr_0,
        _ => le(twos(c->Num_0, int_width(t)), int_width(t)),
    }
}
pub open spec fn all_ok(t: SqlType, cells: Seq<SVal>) -> bool { forall|i: int| 0 <= i < cells.len() ==> cell_ok(t, #[trigger] cells[i]) }
pub open spec fn cat(t: SqlType, cells: Seq<SVal>) -> Seq<u8> decreases cells.len() {
    if cells.len() == 0 { Seq::empty() } else { cat(t, cells.drop_last()) + cell_bytes(t, cells.last()) }
}
// strings: each piece is a length prefix (canonical or not) and that many bytes
pub open spec fn str_piece(c: SVal, p: Seq<u8>) -> bool { c is Str && dec_str(p) == StrDec::Val(c->Str_0, p.len()) }
pub open spec fn strs(cells: Seq<SVal>, b: Seq<u8>) -> bool decreases cells.len() {
    if cells.len() == 0 { b.len() == 0 } else { exists|m: int| 0 <= m <= b.len() && strs(cells.drop_last(), #[trigger] b.take(m)) && str_piece(cells.last(), b.skip(m)) }
}
pub open spec fn nulls_ok(cells: Seq<SVal>, m: Seq<u8>) -> bool { m.len() == cells.len() && forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i] == 1 <==> cells[i] is Null) }
pub open spec fn same_where_set(cells: Seq<SVal>, vals: Seq<SVal>) -> bool {
    vals.len() == cells.len() && forall|i: int| 0 <= i < cells.len() ==> (#[trigger] cells[i] is Null || cells[i] == just(vals[i]))
}
pub open spec fn flat(cells: Seq<SVal>) -> Seq<SVal> decreases cells.len() {
    if cells.len() == 0 { Seq::empty() } else { flat(cells.drop_last()) + cells.last()->Arr_0 }
}
pub open spec fn offs(cells: Seq<SVal>) -> Seq<u8> decreases cells.len() {
    if cells.len() == 0 { Seq::empty() } else { offs(cells.drop_last()) + le(flat(cells).len(), 8) }
}
pub open spec fn all_arr(cells: Seq<SVal>) -> bool { forall|i: int| 0 <= i < cells.len() ==> (#[trigger] cells[i]) is Arr }
pub open spec fn pairs(s: Seq<(SVal, SVal)>) -> (Seq<SVal>, Seq<SVal>) { (Seq::new(s.len(), |i: int| s[i].0), Seq::new(s.len(), |i: int| s[i].1)) }
pub open spec fn keys_of(cells: Seq<SVal>) -> Seq<SVal> { Seq::new(cells.len(), |i: int| SVal::Arr(pairs(cells[i]->Map_0).0)) }
pub open spec fn vals_of(cells: Seq<SVal>) -> Seq<SVal> { Seq::new(cells.len(), |i: int| SVal::Arr(pairs(cells[i]->Map_0).1)) }
pub open spec fn all_map(cells: Seq<SVal>) -> bool { forall|i: int| 0 <= i < cells.len() ==> (#[trigger] cells[i]) is Map }
// low cardinality: keys, index, and how they denote the cells
pub open spec fn idx_bytes(ix: Seq<nat>, w: nat) -> Seq<u8> decreases ix.len() {
    if ix.len() == 0 { Seq::empty() } else { idx_bytes(ix.drop_last(), w) + le(ix.last(), w) }
}
pub open spec fn lc_flags(w: nat) -> nat { (if w == 1 { 0 } else if w == 2 { 1 } else if w == 4 { 2 } else { 3nat }) + 0x600 }
pub open spec fn denotes(cells: Seq<SVal>, keys: Seq<SVal>, ix: Seq<nat>, w: nat) -> bool {
    &&& ix.len() == cells.len() && (w == 1 || w == 2 || w == 4 || w == 8)
    &&& forall|i: int| 0 <= i < ix.len() ==> #[trigger] ix[i] < keys.len() && ix[i] < p256(w) && cells[i] == keys[ix[i] as int]
}
pub open spec fn lc_head(w: nat, nkeys: nat) -> Seq<u8> { le(1, 8) + le(lc_flags(w), 8) + le(nkeys, 8) }
// the keys of a nullable dictionary are written without a null map; the first one stands for NULL
pub open spec fn null_keys(keys: Seq<SVal>, vals: Seq<SVal>) -> bool {
    vals.len() == keys.len() && keys.len() > 0 && forall|i: int| 0 <= i < keys.len() ==> #[trigger] keys[i] == (if i == 0 { SVal::Null } else { just(vals[i]) })
}

pub open spec fn key_cells(t: SqlType, keys: Seq<SVal>) -> bool {
    t is Nullable ==> keys.len() > 0 && forall|i: int| 0 <= i < keys.len() ==> (#[trigger] keys[i] is Null <==> i == 0)
}
pub open spec fn is_null(v: Value) -> bool { v matches Value::Nullable(e) && e is Left }

pub open spec fn is_enc(t: SqlType, cells: Seq<SVal>, b: Seq<u8>) -> bool decreases t, 1nat {
    match t {
        SqlType::Nullable(inner) => exists|vals: Seq<SVal>| #[trigger] same_where_set(cells, vals) && b.len() >= cells.len() && nulls_ok(cells, b.take(cells.len() as int)) && is_enc(*inner, vals, b.skip(cells.len() as int)),
        SqlType::Array(inner) => all_arr(cells) && b.len() >= 8 * cells.len() && b.take(8 * cells.len() as int) == offs(cells) && is_enc(*inner, flat(cells), b.skip(8 * cells.len() as int)),
        SqlType::Map(k, v) => all_map(cells) && exists|m: int| 8 * cells.len() <= m <= b.len() && b.take(8 * cells.len() as int) == offs(keys_of(cells))
            && is_enc(*k, flat(keys_of(cells)), #[trigger] b.subrange(8 * cells.len() as int, m)) && is_enc(*v, flat(vals_of(cells)), b.skip(m)),
        SqlType::LowCardinality(inner) => if cells.len() == 0 { b.len() == 0 } else {
            exists|keys: Seq<SVal>, ix: Seq<nat>, w: nat, kb: Seq<u8>| #[trigger] denotes(cells, keys, ix, w) && #[trigger] lc_body(b, w, keys.len(), kb, ix) && is_kenc(*inner, keys, kb)
        },
        SqlType::String => strs(cells, b),
        SqlType::SimpleAggregateFunction(_, inner) => is_enc(*inner, cells, b),
        _ => all_ok(t, cells) && b == cat(t, cells),
    }
}
pub open spec fn lc_body(b: Seq<u8>, w: nat, nkeys: nat, kb: Seq<u8>, ix: Seq<nat>) -> bool { b == lc_head(w, nkeys) + kb + le(ix.len(), 8) + idx_bytes(ix, w) }
pub open spec fn is_kenc(t: SqlType, keys: Seq<SVal>, b: Seq<u8>) -> bool decreases t, 2nat {
    match t {
        SqlType::Nullable(inner) => exists|vals: Seq<SVal>| #[trigger] null_keys(keys, vals) && is_kenc(*inner, vals, b),
        _ => is_enc(t, keys, b),
    }
}
// bytes written / consumed, without an existential
pub open spec fn wrote(t: SqlType, cells: Seq<SVal>, old: Seq<u8>, new: Seq<u8>) -> bool {
    old.len() <= new.len() && new.take(old.len() as int) == old && is_enc(t, cells, new.skip(old.len() as int))
}
pub open spec fn wrote_keys(t: SqlType, cells: Seq<SVal>, old: Seq<u8>, new: Seq<u8>) -> bool {
    old.len() <= new.len() && new.take(old.len() as int) == old && is_kenc(t, cells, new.skip(old.len() as int))
}
pub open spec fn took(t: SqlType, cells: Seq<SVal>, old: Seq<u8>, new: Seq<u8>) -> bool {
    new.len() <= old.len() && new == old.skip(old.len() - new.len()) && is_enc(t, cells, old.take(old.len() - new.len()))
}
"""

TRAIT = """
// Box<dyn ColumnData>: opaque inside the trait that it refers to
#[verifier::external_body] pub struct BoxColumnData { _p: () }
impl BoxColumnData {
    pub uninterp spec fn wf(&self) -> bool;
    pub uninterp spec fn ty(&self) -> SqlType;
    pub uninterp spec fn cells(&self) -> Seq<SVal>;
    pub uninterp spec fn dict(&self) -> bool;
    pub uninterp spec fn takes(&self, v: Value) -> bool;
    pub uninterp spec fn stored(&self, v: Value) -> SVal;
}
// ---- what a value pushed into a column of type t becomes ----
pub uninterp spec fn default_val(t: SqlType) -> Value;
pub uninterp spec fn name_type(name: Seq<char>, tz: Tz) -> Option<SqlType>;      // decided by the factory unit
// ---- the contract every column is verified against ----
// (Verus checks each implementation against it; a call through `dyn ColumnData` uses it.)
pub trait ColumnData {
    spec fn wf(&self) -> bool;                  // representation invariant
    spec fn ty(&self) -> SqlType;
    spec fn cells(&self) -> Seq<SVal>;
    spec fn dict(&self) -> bool;                // implements save_keys, i.e. may be the dictionary of a LowCardinality column
    spec fn takes(&self, v: Value) -> bool;     // push accepts v ...
    spec fn stored(&self, v: Value) -> SVal;    // ... and stores this cell

    fn sql_type(&self) -> (r: SqlType)
        requires self.wf()
        ensures r == self.ty();
    fn save(&self, encoder: &mut Encoder, start: usize, end: usize)
        requires self.wf(), start <= end <= self.cells().len(),
        ensures wrote(self.ty(), self.cells().subrange(start as int, end as int), old(encoder)@, final(encoder)@);
    fn save_keys(&self, encoder: &mut Encoder)
        requires self.wf(), self.dict(), key_cells(self.ty(), self.cells()),
        ensures wrote_keys(self.ty(), self.cells(), old(encoder)@, final(encoder)@);
    fn len(&self) -> (r: usize)
        requires self.wf()
        ensures r == self.cells().len();
    fn push(&mut self, value: Value)
        requires old(self).wf(), old(self).takes(value),
        ensures final(self).wf(), final(self).ty() == old(self).ty(),
            final(self).cells() == old(self).cells().push(old(self).stored(value)),
            final(self).dict() == old(self).dict(),
            old(self).ty() is Nullable ==> (old(self).stored(value) is Null <==> is_null(value)),
            forall|v: Value| #[trigger] final(self).takes(v) == old(self).takes(v),
            forall|v: Value| #[trigger] final(self).stored(v) == old(self).stored(v);
    fn at(&self, index: usize) -> (r: ValueRef)
        requires self.wf(), index < self.cells().len(),
        ensures r.sv() == self.cells()[index as int], of_kind(r, self.ty());
}
pub type ArcColumnData = Arc<dyn ColumnData>;
"""

GLUE = """
// ---- glue that the verifier cannot see through (trusted) ----
#[verifier::external_body] pub fn intern(t: SqlType) -> (r: &'static SqlType) ensures *r == t { unimplemented!() }
#[verifier::external_body] pub fn box_to_arc(b: BoxColumnData) -> (r: ArcColumnData)
    ensures r.wf() == b.wf(), r.ty() == b.ty(), r.cells() == b.cells(), r.dict() == b.dict(),
        forall|v: Value| #[trigger] r.takes(v) == b.takes(v), forall|v: Value| #[trigger] r.stored(v) == b.stored(v) { unimplemented!() }
pub open spec fn same_col<A: ColumnData>(r: BoxColumnData, c: A) -> bool {
    r.wf() == c.wf() && r.ty() == c.ty() && r.cells() == c.cells() && r.dict() == c.dict()
        && (forall|v: Value| #[trigger] r.takes(v) == c.takes(v)) && (forall|v: Value| #[trigger] r.stored(v) == c.stored(v))
}
// dynamic dispatch of clone_instance to an implementation with the contract of clone_instance below
#[verifier::external_body] pub fn clone_dyn(a: &ArcColumnData) -> (r: BoxColumnData)
    requires a.wf(),
    ensures r.wf() == a.wf(), r.ty() == a.ty(), r.cells() == a.cells(), r.dict() == a.dict(),
        forall|v: Value| #[trigger] r.takes(v) == a.takes(v), forall|v: Value| #[trigger] r.stored(v) == a.stored(v) { unimplemented!() }
#[verifier::external_body] pub fn box_col<C: ColumnData>(c: C) -> (r: BoxColumnData)
    ensures r.wf() == c.wf(), r.ty() == c.ty(), r.cells() == c.cells(), r.dict() == c.dict(),
        forall|v: Value| #[trigger] r.takes(v) == c.takes(v), forall|v: Value| #[trigger] r.stored(v) == c.stored(v) { unimplemented!() }
// Arc::get_mut(..).unwrap(): panics when the column is shared, otherwise a unique borrow
#[verifier::external_body] pub fn arc_mut(a: &mut ArcColumnData) -> (r: &mut dyn ColumnData)
    ensures r.wf() == old(a).wf(), r.ty() == old(a).ty(), r.cells() == old(a).cells(), r.dict() == old(a).dict(),
        forall|v: Value| #[trigger] r.takes(v) == old(a).takes(v), forall|v: Value| #[trigger] r.stored(v) == old(a).stored(v),
        final(a).wf() == final(r).wf(), final(a).ty() == final(r).ty(), final(a).cells() == final(r).cells(), final(a).dict() == final(r).dict(),
        forall|v: Value| #[trigger] final(a).takes(v) == final(r).takes(v), forall|v: Value| #[trigger] final(a).stored(v) == final(r).stored(v) { unimplemented!() }
pub fn assert_same(a: usize, b: usize) requires a == b {}
impl Clone for SqlType { #[verifier::external_body] fn clone(&self) -> (r: SqlType) ensures r == *self { unimplemented!() } }
impl Clone for Value { #[verifier::external_body] fn clone(&self) -> (r: Value) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn value_default(t: SqlType) -> (r: Value) ensures r == default_val(t) { unimplemented!() }
"""


LOADDATA = """
// dispatch on the type name (verified in the factory unit where within reach)
#[verifier::external_body] pub fn load_data<R: ReadEx>(reader: &mut R, type_name: &str, size: usize, tz: Tz) -> (r: Result<ArcColumnData>)
    ensures
        same_end(*final(reader), *old(reader)),
        r matches Ok(c) ==> c.wf() && Some(c.ty()) == name_type(type_name@, tz) && c.cells().len() == size
            && took(c.ty(), c.cells(), old(reader).rest(), final(reader).rest())
{ unimplemented!() }
"""
LOADRW = (r"<dyn ColumnData>::load_data::<ArcColumnWrapper, _>\(", "load_data(", "dispatch by type name through its contract")
INTORW = (r"(\w+_type|sql_type)\.into\(\)", r"intern(\1)", "SqlType -> &'static SqlType through the interning stub")
GETMUT = (r"Arc::get_mut\(&mut self\.(\w+)\)\s*\.(?:unwrap\(\)|expect\(\"[^\"]*\"\))", r"arc_mut(&mut self.\1)", "Arc::get_mut(..).unwrap() through a stub (a shared column panics)")
PUBF = (r"(?m)^(\s+)(?=[a-z_]+\s*:)", r"\1pub ", "fields made visible to specifications")
DEFRW = (r"Value::default\(", "value_default(", "Value::default through its contract")


def types(u, sval=True):
    u.text(TYPES)
    u.item("src/types/decimal.rs", "enum NoBits", attrs="#[derive(Clone, Copy)]")
    u.item("src/types/decimal.rs", "struct Decimal")
    u.item("src/types/enums.rs", "struct Enum8", attrs="#[derive(Clone, Copy)]", rewrites=[(r"struct Enum8\(i8\)", "struct Enum8(pub i8)", "field made visible to specifications")])
    u.item("src/types/enums.rs", "struct Enum16", attrs="#[derive(Clone, Copy)]", rewrites=[(r"struct Enum16\(i16\)", "struct Enum16(pub i16)", "field made visible to specifications")])
    u.item("src/types/mod.rs", "enum DateTimeType", attrs="#[derive(Clone, Copy)]")
    u.item("src/types/mod.rs", "enum SimpleAggFunc", attrs="#[derive(Clone, Copy)]")
    u.item("src/types/mod.rs", "enum SqlType")
    u.item("src/types/value.rs", "enum Value", rewrites=[(r"DateTime<Tz>", "AppDateTime", "chrono DateTime<Tz> is a dependency type")])
    u.item("src/types/value_ref.rs", "enum ValueRef")
    if sval:
        u.text(SVAL)


def prelude(name, ints=("u8", "u64")):
    u = Unit(name, rewrites=C.COMMON_RW)
    u.text(C.HEADER + "use std::sync::Arc;\nverus! {\nglobal size_of usize == 8;\n")
    C.errors(u)
    u.text(C.WIRE_SPEC)
    u.text(W.READ_TRAITS)
    W.put_uvarint(u)
    W.scalars(u, only=ints)
    W.encoder(u)
    u.text(W.FLOAT_SPEC)
    types(u)
    u.text(TRAIT)
    u.text(GLUE)
    return u


LIST_BOUND = "StatBuffer + Unmarshal<T> + Marshal + Copy"


def lists(u, mapped=False):
    """List<T>: safe parts extracted, the two byte views trusted"""
    u.text("""
pub open spec fn elems<T: Marshal>(s: Seq<T>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { elems(s.drop_last()) + s.last().bytes() }
}
pub struct List<T: %s> { pub data: Vec<T> }
impl<T: %s> View for List<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.data@ } }
impl<T: %s> List<T> {
    // the memory of a List is the little-endian encoding of its elements (trusted: unsafe cast, little-endian target)
    #[verifier::external_body] pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == elems(self@), r@.len() == self@.len() * T::mwidth() { unimplemented!() }
    #[verifier::external_body] pub fn as_mut(&mut self) -> (r: &mut [u8])
        ensures r@.len() == old(self)@.len() * T::mwidth(), final(r)@.len() == r@.len(),
            final(self)@.len() == old(self)@.len(), elems(final(self)@) == final(r)@ { unimplemented!() }
""" % (LIST_BOUND, LIST_BOUND, LIST_BOUND))
    L = ("src/types/column/list.rs", "impl ^impl<T> List<T>")
    u.fn(*L, "fn len", vis="pub", spec="ensures r == self@.len()")
    u.fn(*L, "fn at", vis="pub", spec="requires index < self@.len() ensures r == self@[index as int]")
    u.fn(*L, "fn push", vis="pub", spec="ensures final(self)@ == old(self)@.push(value)")
    u.fn(*L, "fn with_capacity", vis="pub", spec="ensures r@ == Seq::<T>::empty()")
    u.fn(*L, "fn resize", vis="pub", spec="ensures final(self)@.len() == new_len, forall|i: int| 0 <= i < old(self)@.len() && i < new_len ==> final(self)@[i] == old(self)@[i]")
    if mapped:
        u.fn(*L, "fn map", vis="pub", sig=[(r"where.*$", "where N: StatBuffer + Unmarshal<N> + Marshal + Copy, F: Fn(T) -> N", "Sync + 'static bounds dropped")],
             rewrites=[(r"let new_capacity = .*?;", "let new_capacity = self.len();", "capacity of the new list (no effect on its contents)")],
             spec="requires forall|x: T| #[trigger] f.requires((x,)) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> f.ensures((self@[i],), #[trigger] r@[i])",
             loops=[dict(head=r"^for i in 0\.\.self\.len\(\)$", spec="invariant forall|x: T| #[trigger] f.requires((x,)), new_list@.len() == i, forall|j: int| 0 <= j < i ==> f.ensures((self@[j],), #[trigger] new_list@[j])")])
    u.text("}\nimpl<T: %s> Clone for List<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }" % LIST_BOUND)


PUSHED = "ensures"


def default_keys(u, hints=()):
    """the trait's default save_keys, verified inside this implementation"""
    u.fn("src/types/column/column_data.rs", "trait ColumnData", "fn save_keys", hints=hints,
         spec="")


def clone_instance(u, path, impl, ty, rewrites=(), hints=()):
    """clone_instance as an inherent method (Verus: a trait method cannot mention dyn of its own trait)"""
    u.text(f"impl {ty} {{")
    u.fn(path, impl, "fn clone_instance", vis="pub", spec="requires self.wf() ensures same_col(r, *self)", hints=hints,
         rewrites=[(r"Box::new\(", "box_col(", "Box<dyn ColumnData> through a stub"),
                   (r"self\.(\w+)\.clone_instance\(\)\.into\(\)", r"box_to_arc(clone_dyn(&self.\1))", "clone_instance of a dyn column and Box -> Arc through stubs")] + list(rewrites))
    u.text("}")


ADAPT = """
pub trait ColumnType: Copy {}
// a column of a block: here only what the adapters use of it, by the contracts proved in the blocks unit
pub struct Column<K: ColumnType> { pub data: ArcColumnData, pub k: K }
impl<K: ColumnType> Column<K> {
    pub open spec fn wf(&self) -> bool { self.data.wf() }
    pub open spec fn ty(&self) -> SqlType { self.data.ty() }
    pub open spec fn cells(&self) -> Seq<SVal> { self.data.cells() }
    pub fn at(&self, index: usize) -> (r: ValueRef) requires self.wf(), index < self.cells().len() ensures r.sv() == self.cells()[index as int], of_kind(r, self.ty()) { self.data.at(index) }
    pub fn len(&self) -> (r: usize) requires self.wf() ensures r == self.cells().len() { self.data.len() }
}
"""
VR = "src/types/value_ref.rs"


def valueref_into(u, t, k, name):
    """From<ValueRef> for a number: extracted from the macro, panicking branch unreachable"""
    u.fn(VR, f"macro_expand value_from t={t},k={k}", f"impl From<ValueRef<'a>> for {t}", "fn from", rename=name, vis="pub",
         sig=[(r"Self", t, "Self written out"), (r"ValueRef<'a>", "ValueRef", "")],
         rewrites=[(r"let from = format!\(.*?\);\s*panic!\(.*\)\s*$", "never() ", "panic branch for another value type: must be unreachable under the precondition")],
         spec=f"requires value is {k} ensures r == value->{k}_0")
