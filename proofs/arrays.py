"""Array and map columns (P09)."""
from . import cols as K

A = "src/types/column/array.rs"
M = "src/types/column/map.rs"
U = "src/types/column/util.rs"
IA = (A, "impl ^impl ColumnData for ArrayColumnData$")
IM = (M, "impl ^impl ColumnData for MapColumnData$")

SPEC = """
pub open spec fn off(o: Seq<u64>, i: int) -> int { if i <= 0 { 0 } else { o[i - 1] as int } }
pub open spec fn mono(o: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i <= j < o.len() ==> #[trigger] o[i] <= #[trigger] o[j] }
pub open spec fn arr_cells(o: Seq<u64>, inner: Seq<SVal>) -> Seq<SVal> { Seq::new(o.len(), |i: int| SVal::Arr(inner.subrange(off(o, i), off(o, i + 1)))) }
pub open spec fn arr_wf(o: Seq<u64>, inner: Seq<SVal>) -> bool { mono(o) && off(o, o.len() as int) == inner.len() && o.len() <= usize::MAX && inner.len() <= usize::MAX }
pub proof fn lemma_mono(o: Seq<u64>, a: int, b: int) requires mono(o), 0 <= a <= b <= o.len() ensures 0 <= off(o, a) <= off(o, b)
{ if a >= 1 { assert(o[a - 1] <= o[b - 1]); } }
pub proof fn lemma_mono_all(o: Seq<u64>) requires mono(o) ensures forall|a: int, b: int| 0 <= a <= b <= o.len() ==> 0 <= #[trigger] off(o, a) <= #[trigger] off(o, b)
{ assert forall|a: int, b: int| 0 <= a <= b <= o.len() implies 0 <= #[trigger] off(o, a) <= #[trigger] off(o, b) by { lemma_mono(o, a, b); } }
// rows a..b flattened are the inner cells off(a)..off(b)
pub proof fn lemma_flat(o: Seq<u64>, inner: Seq<SVal>, a: int, b: int)
    requires arr_wf(o, inner), 0 <= a <= b <= o.len()
    ensures 0 <= off(o, a) <= off(o, b) <= inner.len(), flat(arr_cells(o, inner).subrange(a, b)) == inner.subrange(off(o, a), off(o, b)), all_arr(arr_cells(o, inner))
    decreases b - a
{
    lemma_mono(o, 0, a); lemma_mono(o, a, b); lemma_mono(o, b, o.len() as int);
    let cs = arr_cells(o, inner).subrange(a, b);
    if a < b {
        lemma_mono(o, a, b - 1); lemma_mono(o, b - 1, b);
        lemma_flat(o, inner, a, b - 1);
        assert(cs.drop_last() =~= arr_cells(o, inner).subrange(a, b - 1));
        assert(cs.last() == arr_cells(o, inner)[b - 1]);
        assert(inner.subrange(off(o, a), off(o, b)) =~= inner.subrange(off(o, a), off(o, b - 1)) + inner.subrange(off(o, b - 1), off(o, b)));
    } else { assert(flat(cs) =~= inner.subrange(off(o, a), off(o, b))); }
}
pub proof fn lemma_offs_len(cells: Seq<SVal>) ensures offs(cells).len() == 8 * cells.len() decreases cells.len()
{ if cells.len() > 0 { lemma_offs_len(cells.drop_last()); lemma_le_len(flat(cells).len(), 8); } }
pub proof fn lemma_offs_step(o: Seq<u64>, inner: Seq<SVal>, a: int, i: int)
    requires arr_wf(o, inner), 0 <= a <= i < o.len()
    ensures offs(arr_cells(o, inner).subrange(a, i + 1)) == offs(arr_cells(o, inner).subrange(a, i)) + le((off(o, i + 1) - off(o, a)) as nat, 8)
{
    let c = arr_cells(o, inner);
    lemma_flat(o, inner, a, i + 1); lemma_flat(o, inner, a, i);
    assert(c.subrange(a, i + 1).drop_last() =~= c.subrange(a, i));
}
// the bytes of the offsets of a whole column
pub proof fn lemma_offs_elems(o: Seq<u64>, inner: Seq<SVal>, n: int)
    requires arr_wf(o, inner), 0 <= n <= o.len() ensures offs(arr_cells(o, inner).take(n)) == elems(o.take(n)), elems(o.take(n)).len() == 8 * n
    decreases n
{
    let c = arr_cells(o, inner);
    if n > 0 {
        lemma_offs_elems(o, inner, n - 1);
        assert(c.subrange(0, n) =~= c.take(n)); assert(c.subrange(0, n - 1) =~= c.take(n - 1));
        lemma_offs_step(o, inner, 0, n - 1);
        assert(o.take(n).drop_last() =~= o.take(n - 1));
        assert(o.take(n).last() == o[n - 1]);
        lemma_le_len(o[n - 1] as nat, 8);
    } else { assert(c.take(0) =~= Seq::<SVal>::empty()); assert(o.take(0) =~= Seq::<u64>::empty()); }
}
pub proof fn lemma_push(o: Seq<u64>, inner: Seq<SVal>, add: Seq<SVal>, o2: Seq<u64>)
    requires arr_wf(o, inner), o2 == o.push((inner.len() + add.len()) as u64), inner.len() + add.len() <= usize::MAX, o2.len() <= usize::MAX
    ensures arr_wf(o2, inner + add), arr_cells(o2, inner + add) == arr_cells(o, inner).push(SVal::Arr(add))
{
    lemma_mono_all(o);
    let n = o.len() as int;
    assert(mono(o2)) by { if n > 0 { assert(off(o, n) == o[n - 1]); } }
    lemma_mono_all(o2);
    assert forall|i: int| 0 <= i < n implies #[trigger] arr_cells(o2, inner + add)[i] == arr_cells(o, inner)[i] by {
        assert(off(o2, i) == off(o, i)); assert(off(o2, i + 1) == off(o, i + 1));
        assert((inner + add).subrange(off(o, i), off(o, i + 1)) =~= inner.subrange(off(o, i), off(o, i + 1)));
    }
    assert((inner + add).subrange(off(o2, n), off(o2, n + 1)) =~= add);
    assert(arr_cells(o2, inner + add) =~= arr_cells(o, inner).push(SVal::Arr(add)));
}
// bytes of a loaded column: offsets first, then the elements
pub proof fn lemma_took_arr(t: SqlType, cs: Seq<SVal>, r0: Seq<u8>, f: Seq<u8>)
    requires all_arr(cs), 8 * cs.len() <= r0.len(), offs(cs) == r0.take(8 * cs.len() as int), took(t, flat(cs), r0.skip(8 * cs.len() as int), f)
    ensures took(SqlType::Array(&t), cs, r0, f)
{
    let n = cs.len() as int; let used = r0.take(r0.len() - f.len()); let r1 = r0.skip(8 * n);
    assert(used.take(8 * n) =~= r0.take(8 * n));
    assert(used.skip(8 * n) =~= r1.take(r1.len() - f.len()));
    assert(f =~= r0.skip(r0.len() - f.len()));
}
pub proof fn lemma_loaded(o: Seq<u64>, inner: Seq<SVal>)
    requires arr_wf(o, inner),
    ensures offs(arr_cells(o, inner)) == elems(o), flat(arr_cells(o, inner)) == inner, all_arr(arr_cells(o, inner))
{
    let n = o.len() as int; let c = arr_cells(o, inner);
    assert(o.take(n) =~= o); assert(c.take(n) =~= c); assert(c.subrange(0, n) =~= c); assert(inner.subrange(0, inner.len() as int) =~= inner);
    lemma_offs_elems(o, inner, n); lemma_flat(o, inner, 0, n);
}
pub proof fn lemma_wrote_arr(t: SqlType, cs: Seq<SVal>, o: Seq<u8>, o2: Seq<u8>, f: Seq<u8>)
    requires all_arr(cs), o2 == o + offs(cs), wrote(t, flat(cs), o2, f)
    ensures wrote(SqlType::Array(&t), cs, o, f)
{
    lemma_offs_len(cs);
    let n = cs.len() as int; let b = f.skip(o.len() as int);
    assert(f.take(o.len() as int) =~= o2.take(o.len() as int)); assert(o2.take(o.len() as int) =~= o);
    assert(b.take(8 * n) =~= o2.skip(o.len() as int)) by { assert(f.take(o2.len() as int) == o2); }
    assert(o2.skip(o.len() as int) =~= offs(cs));
    assert(b.skip(8 * n) =~= f.skip(o2.len() as int));
}
// elements that all exist in memory at once are fewer than 2^64 (trusted)
#[verifier::external_body] pub proof fn lemma_room(held: Seq<SVal>, v: Value)
    ensures v is Array ==> held.len() + v->Array_1@.len() <= usize::MAX, v is Map ==> held.len() + v->Map_2.es@.len() <= usize::MAX { }
#[verifier::external_body] pub fn never() -> ! requires false { unimplemented!() }
"""

LOAD_HINTS = []
ENC = [(r"offsets\.as_mut\(\)", "List::as_mut(&mut offsets)", "AsMut<[u8]> of List through its contract")]

PUSHRW = [K.GETMUT, (r"panic!\([^)]*\)", "never()", "panic branch for another value type: must be unreachable under the precondition"),
          ]


def save_spec(first_inner):
    return [dict(head=r"^for i in start\.\.end$", spec="""
            invariant self.wf(), start <= end <= self.cells().len(), first == off(self.offsets@, start as int),
                offset == off(self.offsets@, i as int),
                encoder@ == old(encoder)@ + offs(%s.subrange(start as int, i as int))""" % first_inner,
        start="proof { lemma_offs_step(self.offsets@, self.%s, start as int, i as int); lemma_mono_all(self.offsets@); let gi = i as int; assert(off(self.offsets@, gi + 1) == self.offsets@[gi]); assert(off(self.offsets@, start as int) <= off(self.offsets@, gi + 1)); }",
        )]


def array(u):
    u.text("impl ArrayColumnData {")
    u.fn(A, "impl ^impl ArrayColumnData$", "fn load", vis="pub", rewrites=[K.LOADRW] + ENC,
         spec="""ensures same_end(*final(reader), *old(reader)),
        r matches Ok(c) ==> c.wf() && c.cells().len() == rows && Some(c.inner.ty()) == name_type(type_name@, tz)
            && took(c.ty(), c.cells(), old(reader).rest(), final(reader).rest())""",
         hints=[("after", r"check_offsets\(&offsets\)\?;", """proof { lemma_mono_all(offsets@); }
            let ghost mid = reader.rest();"""),
                ("before", r"Ok\(ArrayColumnData", """proof {
            list_len(&offsets);
            let r0 = old(reader).rest();
            assert(offsets@.len() == rows); assert(<u64 as Marshal>::mwidth() == 8); assert(rows as int * (<u64 as Marshal>::mwidth() as int) == 8 * rows as int) by (nonlinear_arith) requires <u64 as Marshal>::mwidth() == 8; assert(mid =~= r0.skip(8 * rows as int));
            lemma_loaded(offsets@, inner.cells()); lemma_took_arr(inner.ty(), arr_cells(offsets@, inner.cells()), r0, reader.rest());
        }""")])
    u.text("""}
impl ColumnData for ArrayColumnData {
    open spec fn wf(&self) -> bool { self.inner.wf() && arr_wf(self.offsets@, self.inner.cells()) }
    open spec fn ty(&self) -> SqlType { SqlType::Array(&self.inner.ty()) }
    open spec fn cells(&self) -> Seq<SVal> { arr_cells(self.offsets@, self.inner.cells()) }
    open spec fn dict(&self) -> bool { true }
    open spec fn takes(&self, v: Value) -> bool { v is Array && forall|i: int| 0 <= i < v->Array_1@.len() ==> self.inner.takes(#[trigger] v->Array_1@[i]) }
    open spec fn stored(&self, v: Value) -> SVal { SVal::Arr(Seq::new(v->Array_1@.len(), |i: int| self.inner.stored(v->Array_1@[i]))) }""")
    u.fn(*IA, "fn sql_type", rewrites=[K.INTORW])
    u.fn(*IA, "fn save", loops=[dict(head=r"^for i in start\.\.end$", spec="""
            invariant self.wf(), start <= end <= self.cells().len(), first == off(self.offsets@, start as int),
                offset == off(self.offsets@, i as int),
                encoder@ == old(encoder)@ + offs(self.cells().subrange(start as int, i as int))""",
            start="proof { lemma_offs_step(self.offsets@, self.inner.cells(), start as int, i as int); lemma_mono(self.offsets@, start as int, i + 1); }",
            end="proof { assert(encoder@ =~= old(encoder)@ + offs(self.cells().subrange(start as int, i + 1))); }",
            before="proof { assert(self.cells().subrange(start as int, start as int) =~= Seq::<SVal>::empty()); assert(encoder@ =~= old(encoder)@ + offs(self.cells().subrange(start as int, start as int))); lemma_flat(self.offsets@, self.inner.cells(), start as int, end as int); }",
            after="let ghost o2 = encoder@; proof { lemma_flat(self.offsets@, self.inner.cells(), start as int, end as int); }")],
         hints=[("end", "", "proof { lemma_wrote_arr(self.inner.ty(), self.cells().subrange(start as int, end as int), old(encoder)@, o2, encoder@); }")])
    u.fn("src/types/column/column_data.rs", "trait ColumnData", "fn save_keys", hints=[("start", "", "proof { assert(self.cells().subrange(0, self.cells().len() as int) =~= self.cells()); }")])
    u.fn(*IA, "fn len")
    u.fn(*IA, "fn push", rewrites=PUSHRW + [(r"for v in vs\.iter\(\)", "for v in it: vs.iter()", "ghost name for the iterator")],
         loops=[dict(head=r"^for v in it: vs\.iter\(\)$", spec="""
            invariant inner_column.wf(), inner_column.ty() == ty0,
                it.seq().len() == vs@.len(), forall|i: int| 0 <= i < vs@.len() ==> *(#[trigger] it.seq()[i]) == vs@[i],
                inner_column.cells() == in0 + Seq::new(it.index@ as nat, |i: int| old(self).inner.stored(vs@[i])),
                forall|v: Value| #[trigger] inner_column.takes(v) == old(self).inner.takes(v),
                forall|v: Value| #[trigger] inner_column.stored(v) == old(self).inner.stored(v),
                forall|i: int| 0 <= i < vs@.len() ==> old(self).inner.takes(#[trigger] vs@[i])""",
            end="proof { assert(inner_column.cells() =~= in0 + Seq::new((it.index@ + 1) as nat, |i: int| old(self).inner.stored(vs@[i]))); }",
            before="let ghost in0 = inner_column.cells(); let ghost ty0 = inner_column.ty(); proof { assert(in0 =~= in0 + Seq::new(0, |i: int| old(self).inner.stored(vs@[i]))); }")],
         hints=[("before", r"self\.offsets\.push", "proof { lemma_room(old(self).inner.cells(), value); }"),
                ("end", "", """proof {
            list_len(&self.offsets); lemma_arr_stored();
            lemma_push(old(self).offsets@, old(self).inner.cells(), Seq::new(value->Array_1@.len(), |i: int| old(self).inner.stored(value->Array_1@[i])), self.offsets@);
        }""")])
    u.fn(*IA, "fn at", rewrites=[K.INTORW, (r"let mut vs = Vec::with", "let mut vs: Vec<ValueRef> = Vec::with", "type annotation")], loops=[dict(head=r"^for i in start\.\.end$", spec="""
            invariant self.wf(), index < self.cells().len(), start == off(self.offsets@, index as int), end == off(self.offsets@, index + 1), start <= end <= self.inner.cells().len(),
                vs@.len() == i - start, forall|j: int| 0 <= j < i - start ==> (#[trigger] vs@[j]).sv() == self.inner.cells()[start + j] && of_kind(vs@[j], self.inner.ty())""")],
         hints=[("start", "", "proof { lemma_flat(self.offsets@, self.inner.cells(), index as int, index + 1); lemma_flat(self.offsets@, self.inner.cells(), 0, index as int); }"),
                ("before", r"ValueRef::Array\(", "let r = "), ("end", "", """; proof {
            assert(r.sv()->Arr_0 =~= self.inner.cells().subrange(start as int, end as int)); } r"""), ("before", r"ValueRef::Array\(", "proof { assert(Seq::new(vs@.len(), |i: int| if 0 <= i < vs@.len() { vs@[i].sv() } else { arbitrary() }) =~= self.inner.cells().subrange(start as int, end as int)); }")])
    u.text("}")
    K.clone_instance(u, *IA, "ArrayColumnData", hints=[("start", "", "proof { lemma_arr_stored(); }")])


MSPEC = """
pub open spec fn zip(k: Seq<SVal>, v: Seq<SVal>) -> Seq<(SVal, SVal)> { Seq::new(k.len(), |i: int| (k[i], v[i])) }
pub open spec fn map_cells(o: Seq<u64>, k: Seq<SVal>, v: Seq<SVal>) -> Seq<SVal> {
    Seq::new(o.len(), |i: int| SVal::Map(zip(k.subrange(off(o, i), off(o, i + 1)), v.subrange(off(o, i), off(o, i + 1)))))
}
pub open spec fn map_wf(o: Seq<u64>, k: Seq<SVal>, v: Seq<SVal>) -> bool { arr_wf(o, k) && v.len() == k.len() }
pub proof fn lemma_map_parts(o: Seq<u64>, k: Seq<SVal>, v: Seq<SVal>, a: int, b: int)
    requires map_wf(o, k, v), 0 <= a <= b <= o.len()
    ensures keys_of(map_cells(o, k, v).subrange(a, b)) == arr_cells(o, k).subrange(a, b), vals_of(map_cells(o, k, v).subrange(a, b)) == arr_cells(o, v).subrange(a, b),
        all_map(map_cells(o, k, v).subrange(a, b))
{
    lemma_mono_all(o);
    let cs = map_cells(o, k, v);
    assert forall|i: int| 0 <= i < o.len() implies pairs((#[trigger] cs[i])->Map_0).0 =~= k.subrange(off(o, i), off(o, i + 1)) && pairs(cs[i]->Map_0).1 =~= v.subrange(off(o, i), off(o, i + 1)) by {
        assert(off(o, i + 1) <= off(o, o.len() as int)); assert(off(o, i) <= off(o, i + 1));
    }
    assert(keys_of(cs.subrange(a, b)) =~= arr_cells(o, k).subrange(a, b)) by {
        assert forall|i: int| 0 <= i < b - a implies keys_of(cs.subrange(a, b))[i] == arr_cells(o, k).subrange(a, b)[i] by { assert(cs.subrange(a, b)[i] == cs[a + i]); }
    }
    assert(vals_of(cs.subrange(a, b)) =~= arr_cells(o, v).subrange(a, b)) by {
        assert forall|i: int| 0 <= i < b - a implies vals_of(cs.subrange(a, b))[i] == arr_cells(o, v).subrange(a, b)[i] by { assert(cs.subrange(a, b)[i] == cs[a + i]); }
    }
    assert forall|i: int| 0 <= i < b - a implies (#[trigger] cs.subrange(a, b)[i]) is Map by { assert(cs.subrange(a, b)[i] == cs[a + i]); }
}
pub proof fn lemma_wrote_map(kt: SqlType, vt: SqlType, cs: Seq<SVal>, o: Seq<u8>, o2: Seq<u8>, o3: Seq<u8>, f: Seq<u8>)
    requires all_map(cs), o2 == o + offs(keys_of(cs)), wrote(kt, flat(keys_of(cs)), o2, o3), wrote(vt, flat(vals_of(cs)), o3, f)
    ensures wrote(SqlType::Map(&kt, &vt), cs, o, f)
{
    lemma_offs_len(keys_of(cs));
    let l = o.len() as int; let n = 8 * cs.len() as int; let b = f.skip(l); let m = o3.len() - l;
    assert(o3.take(o2.len() as int) == o2); assert(f.take(o3.len() as int) == o3);
    assert(f.take(l) =~= o) by { assert(f.take(l) =~= o3.take(l)); assert(o3.take(l) =~= o2.take(l)); assert(o2.take(l) =~= o); }
    assert(b.take(n) =~= offs(keys_of(cs))) by { assert(b.take(n) =~= o2.skip(l)); assert(o2.skip(l) =~= offs(keys_of(cs))); }
    assert(b.subrange(n, m) =~= o3.skip(o2.len() as int));
    assert(b.skip(m) =~= f.skip(o3.len() as int));
}
pub proof fn lemma_took_map(kt: SqlType, vt: SqlType, cs: Seq<SVal>, r0: Seq<u8>, r2: Seq<u8>, f: Seq<u8>)
    requires all_map(cs), 8 * cs.len() <= r0.len(), offs(keys_of(cs)) == r0.take(8 * cs.len() as int),
        took(kt, flat(keys_of(cs)), r0.skip(8 * cs.len() as int), r2), took(vt, flat(vals_of(cs)), r2, f)
    ensures took(SqlType::Map(&kt, &vt), cs, r0, f)
{
    let n = 8 * cs.len() as int; let used = r0.take(r0.len() - f.len()); let r1 = r0.skip(n); let m = n + (r1.len() - r2.len());
    assert(used.take(n) =~= r0.take(n));
    assert(used.subrange(n, m) =~= r1.take(r1.len() - r2.len()));
    assert(used.skip(m) =~= r2.take(r2.len() - f.len()));
    assert(f =~= r0.skip(r0.len() - f.len()));
}
pub proof fn lemma_map_push(o: Seq<u64>, k: Seq<SVal>, v: Seq<SVal>, ak: Seq<SVal>, av: Seq<SVal>, o2: Seq<u64>)
    requires map_wf(o, k, v), ak.len() == av.len(), o2 == o.push((k.len() + ak.len()) as u64), k.len() + ak.len() <= usize::MAX, o2.len() <= usize::MAX
    ensures map_wf(o2, k + ak, v + av), map_cells(o2, k + ak, v + av) == map_cells(o, k, v).push(SVal::Map(zip(ak, av)))
{
    lemma_push(o, k, ak, o2); lemma_mono_all(o); lemma_mono_all(o2);
    let n = o.len() as int; let c2 = map_cells(o2, k + ak, v + av);
    assert forall|i: int| 0 <= i < n implies #[trigger] c2[i] == map_cells(o, k, v)[i] by {
        assert(off(o2, i) == off(o, i)); assert(off(o2, i + 1) == off(o, i + 1));
        assert((k + ak).subrange(off(o, i), off(o, i + 1)) =~= k.subrange(off(o, i), off(o, i + 1)));
        assert((v + av).subrange(off(o, i), off(o, i + 1)) =~= v.subrange(off(o, i), off(o, i + 1)));
    }
    assert((k + ak).subrange(off(o2, n), off(o2, n + 1)) =~= ak);
    assert((v + av).subrange(off(o2, n), off(o2, n + 1)) =~= av);
    assert(c2 =~= map_cells(o, k, v).push(SVal::Map(zip(ak, av))));
}
impl<K, V> HashMap<K, V> {
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r.es@ == Seq::<(K, V)>::empty() { unimplemented!() }
    pub fn len(&self) -> (r: usize) ensures r == self.es@.len() { self.es.len() }
    // (a key that is inserted twice replaces the earlier pair in the real map)
    pub fn insert(&mut self, k: K, v: V) ensures final(self).es@ == old(self).es@.push((k, v)) { self.es.push((k, v)); }
}
"""


def mapc(u):
    u.item(M, "struct MapColumnData")
    u.text("""pub open spec fn map_stored(a: &MapColumnData, v: Value) -> SVal {
    let es = v->Map_2.es@;
    SVal::Map(zip(Seq::new(es.len(), |i: int| a.keys.stored(es[i].0)), Seq::new(es.len(), |i: int| a.values.stored(es[i].1))))
}
pub proof fn lemma_map_stored() ensures forall|a: MapColumnData, b: MapColumnData, v: Value| (forall|x: Value| a.keys.stored(x) == b.keys.stored(x)) && (forall|x: Value| a.values.stored(x) == b.values.stored(x)) ==> #[trigger] a.stored(v) == #[trigger] b.stored(v)
{ assert forall|a: MapColumnData, b: MapColumnData, v: Value| (forall|x: Value| a.keys.stored(x) == b.keys.stored(x)) && (forall|x: Value| a.values.stored(x) == b.values.stored(x)) implies #[trigger] a.stored(v) == #[trigger] b.stored(v) by { assert(a.stored(v)->Map_0 =~= b.stored(v)->Map_0); } }
pub proof fn lemma_save_map(c: &MapColumnData, a: int, b: int)
    requires c.wf(), 0 <= a <= b <= c.cells().len()
    ensures ({ let cs = c.cells().subrange(a, b); let o = c.offsets@;
        0 <= off(o, a) <= off(o, b) <= c.keys.cells().len() && all_map(cs) && keys_of(cs) == arr_cells(o, c.keys.cells()).subrange(a, b)
        && flat(keys_of(cs)) == c.keys.cells().subrange(off(o, a), off(o, b)) && flat(vals_of(cs)) == c.values.cells().subrange(off(o, a), off(o, b)) })
{ lemma_flat(c.offsets@, c.keys.cells(), a, b); lemma_flat(c.offsets@, c.values.cells(), a, b); lemma_map_parts(c.offsets@, c.keys.cells(), c.values.cells(), a, b); }
impl MapColumnData {""")
    u.fn(M, "impl ^impl MapColumnData$", "fn load", vis="pub", rewrites=[K.LOADRW] + ENC,
         spec="""ensures same_end(*final(reader), *old(reader)),
        r matches Ok(c) ==> c.wf() && c.cells().len() == rows && Some(c.keys.ty()) == name_type(types.0@, tz) && Some(c.values.ty()) == name_type(types.1@, tz)
            && took(c.ty(), c.cells(), old(reader).rest(), final(reader).rest())""",
         hints=[("after", r"check_offsets\(&offsets\)\?;", """proof { lemma_mono_all(offsets@); }
            let ghost mid = reader.rest();"""),
                ("before", r"let values", "let ghost mid2 = reader.rest();"),
                ("before", r"Ok\(Self", """proof {
            list_len(&offsets);
            let r0 = old(reader).rest();
            assert(offsets@.len() == rows); assert(<u64 as Marshal>::mwidth() == 8); assert(rows as int * (<u64 as Marshal>::mwidth() as int) == 8 * rows as int) by (nonlinear_arith) requires <u64 as Marshal>::mwidth() == 8; assert(mid =~= r0.skip(8 * rows as int));
            let cs = map_cells(offsets@, keys.cells(), values.cells());
            assert(cs.subrange(0, cs.len() as int) =~= cs);
            assert(arr_cells(offsets@, keys.cells()).subrange(0, cs.len() as int) =~= arr_cells(offsets@, keys.cells()));
            assert(arr_cells(offsets@, values.cells()).subrange(0, cs.len() as int) =~= arr_cells(offsets@, values.cells()));
            lemma_map_parts(offsets@, keys.cells(), values.cells(), 0, cs.len() as int);
            lemma_loaded(offsets@, keys.cells()); lemma_loaded(offsets@, values.cells());
            lemma_took_map(keys.ty(), values.ty(), cs, r0, mid2, reader.rest());
        }""")])
    u.text("""}
impl ColumnData for MapColumnData {
    open spec fn wf(&self) -> bool { self.keys.wf() && self.values.wf() && map_wf(self.offsets@, self.keys.cells(), self.values.cells()) }
    open spec fn ty(&self) -> SqlType { SqlType::Map(&self.keys.ty(), &self.values.ty()) }
    open spec fn cells(&self) -> Seq<SVal> { map_cells(self.offsets@, self.keys.cells(), self.values.cells()) }
    open spec fn dict(&self) -> bool { true }
    open spec fn takes(&self, v: Value) -> bool { v is Map && forall|i: int| 0 <= i < v->Map_2.es@.len() ==> self.keys.takes((#[trigger] v->Map_2.es@[i]).0) && self.values.takes(v->Map_2.es@[i].1) }
    open spec fn stored(&self, v: Value) -> SVal { map_stored(self, v) }""")
    u.fn(*IM, "fn sql_type", rewrites=[(r"self\.(\w+)\.sql_type\(\)\.into\(\)", r"intern(self.\1.sql_type())", "SqlType -> &'static SqlType through the interning stub")])
    u.fn(*IM, "fn save", loops=[dict(head=r"^for i in start\.\.end$", spec="""
            invariant self.wf(), start <= end <= self.cells().len(), first == off(self.offsets@, start as int),
                offset == off(self.offsets@, i as int),
                encoder@ == old(encoder)@ + offs(kc.subrange(start as int, i as int)), kc == arr_cells(self.offsets@, self.keys.cells())""",
            start="proof { lemma_offs_step(self.offsets@, self.keys.cells(), start as int, i as int); lemma_mono(self.offsets@, start as int, i + 1); }",
            end="proof { assert(encoder@ =~= old(encoder)@ + offs(kc.subrange(start as int, i + 1))); }",
            before="let ghost kc = arr_cells(self.offsets@, self.keys.cells()); proof { assert(kc.subrange(start as int, start as int) =~= Seq::<SVal>::empty()); assert(encoder@ =~= old(encoder)@ + offs(kc.subrange(start as int, start as int))); lemma_save_map(self, start as int, end as int); }",
            after="let ghost o2 = encoder@;")],
         hints=[("before", r"self\.values\.save", "let ghost o3 = encoder@;"),
                ("end", "", "proof { lemma_wrote_map(self.keys.ty(), self.values.ty(), self.cells().subrange(start as int, end as int), old(encoder)@, o2, o3, encoder@); }")])
    u.fn("src/types/column/column_data.rs", "trait ColumnData", "fn save_keys", hints=[("start", "", "proof { assert(self.cells().subrange(0, self.cells().len() as int) =~= self.cells()); }")])
    u.fn(*IM, "fn len")
    u.fn(*IM, "fn push", rewrites=PUSHRW + [(r"for \((\w+), (\w+)\) in vs\.iter\(\) \{", r"for kv in it: vs.es.iter() { let (\1, \2) = (&kv.0, &kv.1);", "HashMap iteration as iteration over its pairs")],
         loops=[dict(head=r"^for kv in it: vs\.es\.iter\(\)$", spec="""
            invariant key_column.wf(), key_column.ty() == old(self).keys.ty(), value_column.wf(), value_column.ty() == old(self).values.ty(),
                it.seq().len() == vs.es@.len(), forall|i: int| 0 <= i < vs.es@.len() ==> *(#[trigger] it.seq()[i]) == vs.es@[i],
                key_column.cells() == old(self).keys.cells() + Seq::new(it.index@ as nat, |i: int| old(self).keys.stored(vs.es@[i].0)),
                value_column.cells() == old(self).values.cells() + Seq::new(it.index@ as nat, |i: int| old(self).values.stored(vs.es@[i].1)),
                forall|v: Value| #[trigger] key_column.takes(v) == old(self).keys.takes(v), forall|v: Value| #[trigger] key_column.stored(v) == old(self).keys.stored(v),
                forall|v: Value| #[trigger] value_column.takes(v) == old(self).values.takes(v), forall|v: Value| #[trigger] value_column.stored(v) == old(self).values.stored(v),
                forall|i: int| 0 <= i < vs.es@.len() ==> old(self).keys.takes((#[trigger] vs.es@[i]).0) && old(self).values.takes(vs.es@[i].1)""",
            end="""proof { assert(key_column.cells() =~= old(self).keys.cells() + Seq::new((it.index@ + 1) as nat, |i: int| old(self).keys.stored(vs.es@[i].0)));
                assert(value_column.cells() =~= old(self).values.cells() + Seq::new((it.index@ + 1) as nat, |i: int| old(self).values.stored(vs.es@[i].1))); }""",
            before="""proof { assert(key_column.cells() =~= old(self).keys.cells() + Seq::new(0, |i: int| old(self).keys.stored(vs.es@[i].0)));
                assert(value_column.cells() =~= old(self).values.cells() + Seq::new(0, |i: int| old(self).values.stored(vs.es@[i].1))); }""")],
         hints=[("before", r"self\.offsets\.push", "proof { lemma_room(old(self).keys.cells(), value); }"),
                ("end", "", """proof {
            list_len(&self.offsets); lemma_map_stored();
            let es = value->Map_2.es@;
            lemma_map_push(old(self).offsets@, old(self).keys.cells(), old(self).values.cells(), Seq::new(es.len(), |i: int| old(self).keys.stored(es[i].0)), Seq::new(es.len(), |i: int| old(self).values.stored(es[i].1)), self.offsets@);
        }""")])
    u.fn(*IM, "fn at", rewrites=[K.INTORW, (r"let mut vs = HashMap::with", "let mut vs: HashMap<ValueRef, ValueRef> = HashMap::with", "type annotation")], loops=[dict(head=r"^for i in start\.\.end$", spec="""
            invariant self.wf(), index < self.cells().len(), start == off(self.offsets@, index as int), end == off(self.offsets@, index + 1), start <= end <= self.keys.cells().len(),
                vs.es@.len() == i - start, forall|j: int| 0 <= j < i - start ==> (#[trigger] vs.es@[j]).0.sv() == self.keys.cells()[start + j] && vs.es@[j].1.sv() == self.values.cells()[start + j] && of_kind(vs.es@[j].0, self.keys.ty()) && of_kind(vs.es@[j].1, self.values.ty())""")],
         hints=[("start", "", "proof { lemma_flat(self.offsets@, self.keys.cells(), index as int, index + 1); lemma_flat(self.offsets@, self.keys.cells(), 0, index as int); }"),
                ("before", r"ValueRef::Map\(", "let r = "), ("end", "", """; proof {
            assert(r.sv()->Map_0 =~= self.cells()[index as int]->Map_0); } r""")])
    u.text("}")
    K.clone_instance(u, *IM, "MapColumnData", hints=[("start", "", "proof { lemma_map_stored(); }")])


def build():
    u = K.prelude("arrays")
    K.lists(u)
    u.text(K.LOADDATA)
    u.text(SPEC)
    u.text("""
pub proof fn list_len(v: &List<u64>) ensures v@.len() <= usize::MAX { broadcast use vstd::std_specs::vec::group_vec_axioms; let n: usize = vstd::std_specs::vec::spec_vec_len(&v.data); assert(n == v.data@.len()); }
""")
    u.item(A, "struct ArrayColumnData")
    u.text("""pub proof fn lemma_arr_stored() ensures forall|a: ArrayColumnData, b: ArrayColumnData, v: Value| (forall|x: Value| a.inner.stored(x) == b.inner.stored(x)) ==> #[trigger] a.stored(v) == #[trigger] b.stored(v)
{ assert forall|a: ArrayColumnData, b: ArrayColumnData, v: Value| (forall|x: Value| a.inner.stored(x) == b.inner.stored(x)) implies #[trigger] a.stored(v) == #[trigger] b.stored(v) by { assert(a.stored(v)->Arr_0 =~= b.stored(v)->Arr_0); } }
""")
    u.fn(U, "fn check_offsets", vis="pub", spec="ensures r is Ok <==> mono(offsets@)",
         loops=[dict(head=r"^for i in 1\.\.offsets\.len\(\)$", spec="invariant offsets@.len() >= 1 ==> forall|a: int, b: int| 0 <= a <= b < i ==> #[trigger] offsets@[a] <= #[trigger] offsets@[b]")])
    array(u)
    u.text(MSPEC)
    mapc(u)
    u.text("} fn main() {}")
    return u
