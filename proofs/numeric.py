"""Fixed-width columns (List, VectorColumnData) for every scalar type."""
import re
from rsx import macro_args, Lost
from . import cols as K
from . import wire as W

N = "src/types/column/numeric.rs"
V = "src/types/value.rs"
IV = (N, r"impl ^impl<T> ColumnData for VectorColumnData<T>")
IN = (N, r"impl ^impl<T> VectorColumnData<T>")
WHERE = r"where\s+T: StatBuffer.*$"
NB = [(WHERE, "", "trait bounds written as NumCell")]

NUMCELL = """
// the bounds of VectorColumnData's element (StatBuffer + Unmarshal + Marshal + Copy + Into<Value> + From<Value> + HasSqlType)
pub trait NumCell: StatBuffer + Unmarshal<Self> + Marshal + Copy {
    spec fn cell(self) -> SVal;
    spec fn vt() -> SqlType;
    spec fn is(v: Value) -> bool;
    spec fn of(v: Value) -> Self;
    fn sql_type() -> (r: SqlType) ensures r == Self::vt();
    fn into_value(self) -> (r: Value) ensures r.sv() == self.cell(), scalar(r), scalar_type(r) == Self::vt();
    fn from_value(v: Value) -> (r: Self) requires Self::is(v) ensures r == Self::of(v);
    proof fn wires(self) ensures leaf(Self::vt()), cell_ok(Self::vt(), self.cell()), cell_bytes(Self::vt(), self.cell()) == self.bytes(), self.bytes().len() == Self::mwidth();
    // the value that is stored is the value that was given
    proof fn same(v: Value) requires Self::is(v) ensures Self::of(v).cell() == v.sv();
}
pub open spec fn scalar(v: Value) -> bool {
    v is Bool || v is UInt8 || v is UInt16 || v is UInt32 || v is UInt64 || v is UInt128 || v is Int8 || v is Int16 || v is Int32 || v is Int64 || v is Int128 || v is Float32 || v is Float64
}
pub open spec fn scalar_type(v: Value) -> SqlType {
    match v { Value::Bool(_) => SqlType::Bool, Value::UInt8(_) => SqlType::UInt8, Value::UInt16(_) => SqlType::UInt16, Value::UInt32(_) => SqlType::UInt32, Value::UInt64(_) => SqlType::UInt64, Value::UInt128(_) => SqlType::UInt128,
        Value::Int8(_) => SqlType::Int8, Value::Int16(_) => SqlType::Int16, Value::Int32(_) => SqlType::Int32, Value::Int64(_) => SqlType::Int64, Value::Int128(_) => SqlType::Int128, Value::Float32(_) => SqlType::Float32, _ => SqlType::Float64 }
}
pub open spec fn leaf(t: SqlType) -> bool {
    !(t is String || t is Nullable || t is Array || t is Map || t is LowCardinality || t is SimpleAggregateFunction)
}
pub open spec fn ncells<T: NumCell>(d: Seq<T>) -> Seq<SVal> { Seq::new(d.len(), |i: int| d[i].cell()) }
pub proof fn lemma_num_cat<T: NumCell>(d: Seq<T>, a: int, b: int)
    requires 0 <= a <= b <= d.len()
    ensures cat(T::vt(), ncells(d).subrange(a, b)) == elems(d.subrange(a, b)), all_ok(T::vt(), ncells(d).subrange(a, b)), elems(d.subrange(a, b)).len() == (b - a) * T::mwidth()
    decreases b - a
{
    if a < b {
        lemma_num_cat(d, a, b - 1);
        d[b - 1].wires();
        assert(ncells(d).subrange(a, b).drop_last() =~= ncells(d).subrange(a, b - 1));
        assert(d.subrange(a, b).drop_last() =~= d.subrange(a, b - 1));
        assert((b - a) * T::mwidth() == (b - 1 - a) * T::mwidth() + T::mwidth()) by (nonlinear_arith);
        assert forall|i: int| 0 <= i < b - a implies cell_ok(T::vt(), #[trigger] ncells(d).subrange(a, b)[i]) by { d[a + i].wires(); }
    } else { assert(0 * T::mwidth() == 0); }
}
pub proof fn lemma_elems_cut<T: NumCell>(d: Seq<T>, a: int, b: int)
    requires 0 <= a <= b <= d.len()
    ensures 0 <= a * T::mwidth() <= b * T::mwidth() <= elems(d).len(), elems(d).subrange(a * T::mwidth(), b * T::mwidth()) == elems(d.subrange(a, b))
    decreases d.len() - b
{
    let w = T::mwidth() as int;
    lemma_num_cat(d, 0, d.len() as int); lemma_num_cat(d, 0, b); lemma_num_cat(d, a, b); lemma_num_cat(d, 0, a);
    assert(d.subrange(0, d.len() as int) =~= d);
    assert(0 <= a * w <= b * w <= d.len() * w) by (nonlinear_arith) requires 0 <= a <= b <= d.len(), w >= 0;
    lemma_elems_add(d.subrange(0, a), d.subrange(a, b)); lemma_elems_add(d.subrange(0, b), d.subrange(b, d.len() as int));
    assert(d.subrange(0, a) + d.subrange(a, b) =~= d.subrange(0, b));
    assert(d.subrange(0, b) + d.subrange(b, d.len() as int) =~= d);
    assert(elems(d.subrange(0, a)).len() == a * w); assert(elems(d.subrange(0, b)).len() == b * w);
    assert(elems(d).subrange(a * w, b * w) =~= elems(d.subrange(0, b)).skip(a * w));
    assert(elems(d.subrange(0, b)).skip(a * w) =~= elems(d.subrange(a, b)));
}
pub proof fn lemma_elems_add<T: Marshal>(a: Seq<T>, b: Seq<T>) ensures elems(a + b) == elems(a) + elems(b) decreases b.len()
{
    if b.len() > 0 { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_elems_add(a, b.drop_last()); assert(elems(a + b) =~= elems(a) + elems(b)); }
    else { assert(a + b =~= a); assert(elems(a + b) =~= elems(a) + elems(b)); }
}
// mem::size_of of a scalar is the width of its encoding (trusted)
#[verifier::external_body] pub fn msize<T: Marshal>() -> (r: usize) ensures r == T::mwidth() { unimplemented!() }
// Vec::set_len within the capacity reserved just before: the contents are arbitrary
#[verifier::external_body] pub fn set_len<T: StatBuffer + Unmarshal<T> + Marshal + Copy>(l: &mut List<T>, n: usize) ensures final(l)@.len() == n { unimplemented!() }
pub proof fn slice_len(d: &[u8]) ensures d@.len() <= usize::MAX { broadcast use vstd::slice::group_slice_axioms; assert(vstd::slice::spec_slice_len(d) == d@.len()); }
#[verifier::external_body] pub fn never() -> ! requires false { unimplemented!() }
"""


def table(path, name, key):
    """right-hand side of `key: value` in the invocation of a macro"""
    for args in macro_args(path, name):
        for a in args:
            k, _, v = a.partition(":")
            if k.strip() == key:
                return v.strip()
    raise Lost(f"{path}: {name}! has no entry for {key}")


KIND = {"bool": "Bool", "f32": "Float32", "f64": "Float64"}
for _t in W.INTS:
    KIND[_t] = ("UInt" if _t[0] == "u" else "Int") + _t[1:]


def numcell(u, t):
    k = KIND[t]
    cell = "SVal::Bool(self)" if t == "bool" else f"SVal::F{t[1:]}(self)" if t[0] == "f" else "SVal::Num(self as int)"
    acc = {"bool": ""}.get(t, "")
    extra = "lemma_p256(); " + (f"lemma_le_len(twos(self as int, {W.INTS[t]}), {W.INTS[t]});" if t in W.INTS else f"lemma_le_len({t}_bits(self) as nat, {int(t[1:]) // 8 if t[0] == 'f' else 0});" if t[0] == "f" else "")
    u.text(f"""
impl NumCell for {t} {{
    open spec fn cell(self) -> SVal {{ {cell} }}
    open spec fn vt() -> SqlType {{ SqlType::{k} }}
    open spec fn is(v: Value) -> bool {{ v is {k} }}
    open spec fn of(v: Value) -> {t} {{ v->{k}_0 }}
    proof fn wires(self) {{ {extra} }}
    proof fn same(v: Value) {{}}""")
    u.fn("src/types/stat_buffer.rs", f"impl ^impl StatBuffer for {t}$", "fn sql_type")
    u.fn(V, f"macro_expand value_from t={t},k={table(V, 'value_from', t)}", f"impl convert::From<{t}> for Value", "fn from", rename="into_value",
         sig=[(r"\(v: \w+\)", "(self)", "From<T> for Value as a method of T"), (r"-> Value", "-> Value", "")],
         rewrites=[(r"v\.into\(\)", "self", "reflexive Into")])
    u.fn(V, f"macro_expand from_value t={t},k={table(V, 'from_value', t)}", f"impl convert::From<Value> for {t}", "fn from", rename="from_value",
         rewrites=[(r"let from = SqlType::from\(v\);\s*panic!\(.*\)\s*$", "never() ", "panic branch for another value type: must be unreachable under the precondition")],
         sig=[(r"-> \w+", "-> Self", "Self")])
    u.text("}")


VSPEC = """
pub struct VectorColumnData<T: NumCell> { pub data: List<T> }
impl<T: NumCell> VectorColumnData<T> {
    pub open spec fn nc(&self) -> Seq<SVal> { ncells(self.data@) }
"""


def vector(u):
    """VectorColumnData: the column under the ColumnData contract"""
    u.text(VSPEC)
    u.fn(*IN, "fn with_capacity", vis="pub", spec="ensures r.data@ == Seq::<T>::empty()")
    u.fn(*IN, "fn load", vis="pub", rewrites=[(r"unsafe \{\s*data\.set_len\(size\);\s*\}", "set_len(&mut data, size);", "set_len through a stub"),
                                             (r"data\.as_mut\(\)", "List::as_mut(&mut data)", "AsMut<[u8]> of List through its contract")],
         spec="""ensures same_end(*final(reader), *old(reader)),
        r matches Ok(c) ==> c.data@.len() == size && size * T::mwidth() <= old(reader).rest().len() && elems(c.data@) == old(reader).rest().take(size * T::mwidth()) && final(reader).rest() == old(reader).rest().skip(size * T::mwidth())
            && took_leaf(T::vt(), c.nc(), old(reader).rest(), final(reader).rest())""",
         hints=[("before", r"Ok\(Self", """proof {
            let n = size as int; let r0 = old(reader).rest();
            lemma_num_cat(data@, 0, n); assert(data@.subrange(0, n) =~= data@); assert(ncells(data@).subrange(0, n) =~= ncells(data@));
            assert(r0.take(r0.len() - reader.rest().len()) =~= elems(data@)); assert(r0.skip(r0.len() - reader.rest().len()) =~= reader.rest());
        }""")])
    u.fn(*IN, "fn get_by_index", vis="pub", spec="requires index < self.data@.len() ensures r == self.data@[index as int]")
    u.text("""}
impl<T: NumCell> ColumnData for VectorColumnData<T> {
    open spec fn wf(&self) -> bool { true }
    open spec fn ty(&self) -> SqlType { T::vt() }
    open spec fn cells(&self) -> Seq<SVal> { self.nc() }
    open spec fn dict(&self) -> bool { true }
    open spec fn takes(&self, v: Value) -> bool { T::is(v) }
    open spec fn stored(&self, v: Value) -> SVal { v.sv() }""")
    u.fn(*IV, "fn sql_type")
    u.fn(*IV, "fn save", hints=[("end", "", "proof { lemma_leaf_wrote(T::vt(), self.cells().subrange(start as int, end as int), old(encoder)@, elems(self.data@.subrange(start as int, end as int))); }"),
                                ("start", "", "proof { lemma_num_cat(self.data@, start as int, end as int); lemma_elems_cut(self.data@, start as int, end as int); wires_any::<T>(); }")],
         rewrites=[(r"self\.data\.as_ref\(\)", "List::as_ref(&self.data)", "AsRef<[u8]> of List through its contract")])
    u.fn("src/types/column/column_data.rs", "trait ColumnData", "fn save_keys", hints=[("start", "", "proof { wires_any::<T>(); assert(self.cells().subrange(0, self.cells().len() as int) =~= self.cells()); }")])
    u.fn(*IV, "fn len")
    u.fn(*IV, "fn push", rewrites=[(r"T::from\(value\)", "T::from_value(value)", "From<Value> for T through its contract")],
         hints=[("end", "", "proof { T::same(value); assert(self.cells() =~= old(self).cells().push(old(self).stored(value))); }")])
    u.fn(*IV, "fn at", rewrites=[(r"self\.data\.at\(index\)\.into\(\)", "self.data.at(index).into_value()", "Into<Value> for T through its contract"),
                                 (r'panic!\("can\'t convert value to value_ref\."\)', "never()", "panic branch: must be unreachable")])
    u.text("}")
    u.fn(N, "fn save_data", vis="pub", sig=[(r"<T>", "<T: Marshal>", "bound added so that the element width can be specified")],
         rewrites=[(r"mem::size_of::<T>\(\)", "msize::<T>()", "size_of through a stub"), (r"&data\[", "&data[", "")],
         hints=[("start", "", "proof { slice_len(data); }")],
         spec="""requires 0 <= start * T::mwidth() <= end * T::mwidth() <= data@.len() ensures final(encoder)@ == old(encoder)@ + data@.subrange(start * T::mwidth(), end * T::mwidth())""")
    u.text("""
pub open spec fn took_leaf(t: SqlType, cells: Seq<SVal>, old: Seq<u8>, new: Seq<u8>) -> bool {
    new.len() <= old.len() && new == old.skip(old.len() - new.len()) && all_ok(t, cells) && old.take(old.len() - new.len()) == cat(t, cells)
}
pub proof fn lemma_leaf_wrote(t: SqlType, cells: Seq<SVal>, o: Seq<u8>, b: Seq<u8>)
    requires leaf(t), all_ok(t, cells), b == cat(t, cells) ensures wrote(t, cells, o, o + b)
{ assert((o + b).take(o.len() as int) =~= o); assert((o + b).skip(o.len() as int) =~= b); }
pub proof fn wires_any<T: NumCell>() ensures leaf(T::vt()) { let v: T = arbitrary(); v.wires(); }
""")
    u.text("impl<T: NumCell> VectorColumnData<T> {")
    u.fn(*IV, "fn clone_instance", vis="pub", spec="requires self.wf() ensures same_col(r, *self)", rewrites=[(r"Box::new\(", "box_col(", "Box<dyn ColumnData> through a stub")])
    u.text("}")


def build():
    u = K.prelude("numeric", ints=tuple(W.INTS))
    W.floats(u)
    K.lists(u)
    u.text(NUMCELL)
    for t in KIND:
        numcell(u, t)
    vector(u)
    u.text("} fn main() {}")
    return u
