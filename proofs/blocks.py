"""Columns as parts of a block, blocks on the wire, chunks of a block for inserting, concatenation of blocks."""
from . import cols as K
from . import frames as FR
from . import wire as W

M = "src/types/column/mod.rs"
B = "src/types/block/mod.rs"
BI = "src/types/block/block_info.rs"
CH = "src/types/column/chunk.rs"
CI = "src/types/block/chunk_iterator.rs"
CC = "src/types/column/concat.rs"

STUBS = """
#[verifier::external_body] pub fn arc_col<C: ColumnData>(c: C) -> (r: ArcColumnData)
    ensures r.wf() == c.wf(), r.ty() == c.ty(), r.cells() == c.cells(), r.dict() == c.dict(),
        forall|v: Value| #[trigger] r.takes(v) == c.takes(v), forall|v: Value| #[trigger] r.stored(v) == c.stored(v) { unimplemented!() }
// Display of a column type
pub uninterp spec fn type_str(t: SqlType) -> Seq<char>;
#[verifier::external_body] pub fn type_text(t: SqlType) -> (r: String) ensures r@ == type_str(t) { unimplemented!() }
// derived PartialEq of SqlType is structural equality
impl vstd::std_specs::cmp::PartialEqSpecImpl for SqlType {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &SqlType) -> bool { *self == *o }
}
impl PartialEq for SqlType { #[verifier::external_body] fn eq(&self, o: &SqlType) -> (r: bool) { unimplemented!() } }
#[verifier::external_body] pub fn range_len(r: &std::ops::Range<usize>) -> (n: usize) ensures n == if r.start < r.end { r.end - r.start } else { 0int } { unimplemented!() }
pub fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
#[verifier::external_body] pub fn never() -> ! requires false { unimplemented!() }
#[verifier::external_body] pub fn vfirst<T>(v: &Vec<T>) -> (r: Option<&T>) ensures r is Some <==> v@.len() > 0, r is Some ==> *r->Some_0 == v@[0] { v.first() }
#[verifier::external_body] pub fn vlast<T>(v: &Vec<T>) -> (r: Option<&T>) ensures r is Some <==> v@.len() > 0, r is Some ==> *r->Some_0 == v@.last() { v.last() }
#[verifier::external_body] pub fn string_of(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body] pub fn string_clone(s: &String) -> (r: String) ensures r@ == s@ { s.clone() }
#[verifier::external_body] pub fn string_deref(s: &String) -> (r: &str) ensures r@ == s@ { s.as_str() }
pub trait ColumnType: Copy {}
"""

COLSPEC = """
impl<K: ColumnType> Column<K> {
    pub open spec fn wf(&self) -> bool { self.data.wf() }
    pub open spec fn ty(&self) -> SqlType { self.data.ty() }
    pub open spec fn cells(&self) -> Seq<SVal> { self.data.cells() }
    pub open spec fn title(&self) -> Seq<char> { self.name@ }
}
// the same column as far as anybody can observe
pub open spec fn like(r: ArcColumnData, c: ArcColumnData) -> bool { r == c }
pub open spec fn col_head(name: Seq<char>, t: SqlType) -> Seq<u8> { enc_str(name) + enc_str(type_str(t)) }
pub open spec fn wrote_col(name: Seq<char>, t: SqlType, cells: Seq<SVal>, old: Seq<u8>, new: Seq<u8>) -> bool {
    wrote(t, cells, old + enc_str(name) + enc_str(type_str(t)), new)
}
// a column at the head of `s`, ending at `e`
pub open spec fn read_col(name: Seq<char>, t: SqlType, cells: Seq<SVal>, s: Seq<u8>, e: Seq<u8>, tz: Tz) -> bool {
    dec_str(s) matches StrDec::Val(nb, n) && encode_utf8(name) == nb && (dec_str(s.skip(n as int)) matches StrDec::Val(tb, m)
        && (exists|tn: Seq<char>| #[trigger] encode_utf8(tn) == tb && name_type(tn, tz) == Some(t))
        && took(t, cells, s.skip(n as int).skip(m as int), e))
}
"""


def column(u, chunked=True):
    u.text(STUBS)
    u.item(M, "struct Simple", attrs="#[derive(Clone, Copy)]")
    u.item(M, "struct Complex", attrs="#[derive(Clone, Copy)]")
    u.text("impl ColumnType for Simple {} impl ColumnType for Complex {}")
    u.item(M, "struct Column", rewrites=[(r"marker::PhantomData", "core::marker::PhantomData", "module path"), (r"\bcrate\b|pub\(\)", "", "")])
    u.text(COLSPEC)
    PH = (r"marker::PhantomData", "core::marker::PhantomData", "module path")
    u.text("impl<K: ColumnType> Column<K> {")
    G = (M, r"impl ^impl<K: ColumnType> Column<K>", )
    u.fn(*G, "fn read", vis="pub", rewrites=[K.LOADRW, PH],
         spec="""ensures same_end(*final(reader), *old(reader)),
        r matches Ok(c) ==> c.wf() && c.cells().len() == size && read_col(c.title(), c.ty(), c.cells(), old(reader).rest(), final(reader).rest(), tz)""")
    u.fn(*G, "fn name", vis="pub", spec="ensures r@ == self.title()", rewrites=[(r"&self\.name", "string_deref(&self.name)", "Deref of String")])
    u.fn(*G, "fn sql_type", vis="pub", spec="requires self.wf() ensures r == self.ty()")
    u.fn(*G, "fn at", vis="pub", spec="requires self.wf(), index < self.cells().len() ensures r.sv() == self.cells()[index as int], of_kind(r, self.ty())")
    u.fn(*G, "fn write", vis="pub", spec="requires self.wf() ensures wrote_col(self.title(), self.ty(), self.cells(), old(encoder)@, final(encoder)@)",
         rewrites=[(r"self\.data\.sql_type\(\)\.to_string\(\)\.as_ref\(\)", "&type_text(self.data.sql_type())", "Display of SqlType through a stub")],
         hints=[("start", "", "proof { assert(self.cells().subrange(0, self.cells().len() as int) =~= self.cells()); }")])
    u.fn(*G, "fn len", vis="pub", spec="requires self.wf() ensures r == self.cells().len()")
    if chunked:
      u.fn(*G, "fn slice", vis="pub", sig=[(r"ops::Range", "std::ops::Range", "module path")], rewrites=[PH, (r"Arc::new\(data\)", "arc_col(data)", "Arc<dyn ColumnData> through a stub"), (r"self\.name\.clone\(\)", "string_clone(&self.name)", "clone of String")],
         spec="""requires self.wf(), range.start <= range.end <= self.cells().len()
        ensures r.wf(), r.ty() == self.ty(), r.title() == self.title(), r.cells() == self.cells().subrange(range.start as int, range.end as int)""")
    u.fn(*G, "fn push", vis="pub", attrs="#[verifier::exec_allows_no_decreases_clause]",
         rewrites=[(r"Arc::get_mut\(&mut self\.data\)", "arc_get_mut(&mut self.data)", "Arc::get_mut through a stub (None when shared)"),
                   (r"Arc::from\(self\.data\.clone_instance\(\)\)", "box_to_arc(clone_dyn(&self.data))", "clone_instance of a dyn column and Box -> Arc through stubs")],
         loops=[dict(head="^loop$", spec="""
            invariant_except_break self.wf(), self.ty() == old(self).ty(), self.cells() == old(self).cells(), self.title() == old(self).title(), self.data.takes(value) == old(self).data.takes(value), self.data.stored(value) == old(self).data.stored(value), old(self).data.takes(value), old(self).wf()
            ensures self.wf(), self.ty() == old(self).ty(), self.title() == old(self).title(), self.cells() == old(self).cells().push(old(self).data.stored(value))""")],
         spec="""requires old(self).wf(), old(self).data.takes(value)
        ensures final(self).wf(), final(self).ty() == old(self).ty(), final(self).title() == old(self).title(),
            final(self).cells() == old(self).cells().push(old(self).data.stored(value))""")
    u.text("}\nimpl<K: ColumnType> Clone for Column<K> {")
    u.fn(M, "impl ^impl<K: ColumnType> Clone for Column<K>", "fn clone", rewrites=[PH, (r"self\.name\.clone\(\)", "string_clone(&self.name)", "clone of String")],
         spec="ensures r.data == self.data, r.title() == self.title()")
    u.text("}")
    u.fn(M, "fn new_column", vis="pub", sig=[(r"Arc<\(dyn ColumnData.*?\)>", "ArcColumnData", "Send + Sync bounds dropped")], rewrites=[PH, (r"name\.to_string\(\)", "string_of(name)", "str::to_string")],
         spec="ensures r.data == data, r.title() == name@")


ARCGET = """
#[verifier::external_body] pub fn arc_get_mut(a: &mut ArcColumnData) -> (r: Option<&mut dyn ColumnData>)
    ensures match r {
        None => *final(a) == *old(a),
        Some(m) => m.wf() == old(a).wf() && m.ty() == old(a).ty() && m.cells() == old(a).cells() && m.dict() == old(a).dict()
            && (forall|v: Value| #[trigger] m.takes(v) == old(a).takes(v)) && (forall|v: Value| #[trigger] m.stored(v) == old(a).stored(v))
            && final(a).wf() == final(m).wf() && final(a).ty() == final(m).ty() && final(a).cells() == final(m).cells() && final(a).dict() == final(m).dict()
            && (forall|v: Value| #[trigger] final(a).takes(v) == final(m).takes(v)) && (forall|v: Value| #[trigger] final(a).stored(v) == final(m).stored(v)),
    } { unimplemented!() }
"""


def chunk(u):
    u.item(CH, "struct ChunkColumnData", rewrites=[(r"ops::Range", "std::ops::Range", "module path"), K.PUBF])
    u.text("impl ChunkColumnData {")
    u.fn(CH, "impl ^impl ChunkColumnData$", "fn new", vis="pub", spec="ensures r.data == data, r.range == range", sig=[(r"ops::Range", "std::ops::Range", "module path")])
    u.text("""}
impl ColumnData for ChunkColumnData {
    open spec fn wf(&self) -> bool { self.data.wf() && self.range.start <= self.range.end <= self.data.cells().len() }
    open spec fn ty(&self) -> SqlType { self.data.ty() }
    open spec fn cells(&self) -> Seq<SVal> { self.data.cells().subrange(self.range.start as int, self.range.end as int) }
    open spec fn dict(&self) -> bool { false }
    open spec fn takes(&self, v: Value) -> bool { false }
    open spec fn stored(&self, v: Value) -> SVal { SVal::Null }""")
    I = (CH, "impl ^impl ColumnData for ChunkColumnData$")
    u.fn(*I, "fn sql_type")
    u.fn(*I, "fn save", rewrites=[(r"cmp::min\(", "min_usize(", "cmp::min through its definition")],
         hints=[("start", "", """proof { arc_len(&self.data); assert(self.cells().subrange(start as int, end as int) =~= self.data.cells().subrange(self.range.start + start, self.range.start + end)); }""")])
    u.text("#[verifier::external_body] fn save_keys(&self, encoder: &mut Encoder) { unimplemented!() }")
    u.fn(*I, "fn len", rewrites=[(r"self\.range\.len\(\)", "range_len(&self.range)", "ExactSizeIterator::len of a range")])
    u.text("// push: unimplemented!() in the source, no value is accepted\n#[verifier::external_body] fn push(&mut self, value: Value) { unimplemented!() }")
    u.fn(*I, "fn at", rewrites=[(r"self\.range\.len\(\)", "range_len(&self.range)", "ExactSizeIterator::len of a range"), (r'panic!\("out of range"\)', "never()", "panic must be unreachable for an existing row")])
    u.text("}")


CONCATSPEC = """
pub open spec fn cat_cells(d: Seq<ArcColumnData>) -> Seq<SVal> decreases d.len() {
    if d.len() == 0 { Seq::empty() } else { cat_cells(d.drop_last()) + d.last().cells() }
}
pub open spec fn index_of(sizes: Seq<usize>, index: Seq<usize>) -> bool {
    index.len() == sizes.len() + 1 && index[0] == 0 && forall|i: int| 0 <= i < sizes.len() ==> index[i + 1] == index[i] + #[trigger] sizes[i]
}
pub open spec fn sum(s: Seq<usize>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { sum(s.drop_last()) + s.last() as nat } }
pub open spec fn sorted(ix: Seq<usize>) -> bool { ix.len() > 0 && ix[0] == 0 && forall|i: int, j: int| 0 <= i <= j < ix.len() ==> ix[i] <= ix[j] }
pub proof fn lemma_sum_mono(s: Seq<usize>, k: int) requires 0 <= k <= s.len() ensures sum(s.take(k)) <= sum(s) decreases s.len() - k {
    if k < s.len() { lemma_sum_mono(s, k + 1); assert(s.take(k + 1).drop_last() =~= s.take(k)); } else { assert(s.take(k) =~= s); }
}
pub open spec fn lens_of(d: Seq<ArcColumnData>) -> Seq<int> { Seq::new(d.len(), |i: int| d[i].cells().len() as int) }
pub open spec fn index_rel(d: Seq<ArcColumnData>, ix: Seq<usize>) -> bool {
    ix.len() == d.len() + 1 && ix[0] == 0 && forall|i: int| 0 <= i < d.len() ==> ix[i + 1] == ix[i] + (#[trigger] d[i]).cells().len()
}
pub proof fn lemma_index_sorted(d: Seq<ArcColumnData>, ix: Seq<usize>, j: int)
    requires index_rel(d, ix), 0 <= j < ix.len()
    ensures forall|i: int| 0 <= i <= j ==> ix[i] <= ix[j] decreases j
{
    if j > 0 { lemma_index_sorted(d, ix, j - 1); assert(ix[j - 1 + 1] == ix[j - 1] + d[j - 1].cells().len()); }
}
// row ix[k] + i of the whole is row i of chunk k
pub open spec fn row_is(d: Seq<ArcColumnData>, ix: Seq<usize>, k: int, i: int) -> bool { ix[k] + i < cat_cells(d).len() && cat_cells(d)[ix[k] + i] == d[k].cells()[i] }
pub proof fn lemma_cat_cells(d: Seq<ArcColumnData>, ix: Seq<usize>)
    requires index_rel(d, ix)
    ensures cat_cells(d).len() == ix.last(), forall|k: int, i: int| 0 <= k < d.len() && 0 <= i < d[k].cells().len() ==> #[trigger] row_is(d, ix, k, i)
    decreases d.len()
{
    if d.len() > 0 {
        let d0 = d.drop_last(); let ix0 = ix.drop_last(); let n = d.len() - 1;
        assert forall|i: int| 0 <= i < d0.len() implies ix0[i + 1] == ix0[i] + (#[trigger] d0[i]).cells().len() by { assert(d0[i] == d[i]); }
        lemma_cat_cells(d0, ix0);
        assert(d[n] == d.last()); assert(ix[n + 1] == ix[n] + d[n].cells().len());
        assert forall|k: int, i: int| 0 <= k < d.len() && 0 <= i < d[k].cells().len() implies #[trigger] row_is(d, ix, k, i) by {
            if k < d0.len() { assert(d0[k] == d[k]); assert(row_is(d0, ix0, k, i)); }
        }
    }
}
impl ConcatColumnData {
    pub open spec fn rep(&self) -> bool {
        self.data@.len() > 0 && index_rel(self.data@, self.index@)
            && forall|i: int| 0 <= i < self.data@.len() ==> (#[trigger] self.data@[i]).wf() && self.data@[i].ty() == self.data@[0].ty()
    }
}
pub open spec fn joinable(d: Seq<ArcColumnData>) -> bool {
    d.len() > 0 && cat_cells(d).len() <= usize::MAX && forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]).wf() && d[i].ty() == d[0].ty()
}
#[verifier::external_body] pub fn lens(d: &Vec<ArcColumnData>) -> (r: Vec<usize>)
    requires forall|i: int| 0 <= i < d@.len() ==> (#[trigger] d@[i]).wf()
    ensures r@.len() == d@.len(), forall|i: int| 0 <= i < d@.len() ==> #[trigger] r@[i] == d@[i].cells().len() { unimplemented!() }
// Value::from(ValueRef): a column takes the cells another column of its type yields, and stores them as they were
#[verifier::external_body] pub fn cell_value(v: ValueRef, d: &ArcColumnData) -> (r: Value) requires d.wf() ensures d.takes(r), d.stored(r) == v.sv() { unimplemented!() }
pub proof fn lemma_sizes(d: Seq<ArcColumnData>, s: Seq<usize>)
    requires s.len() == d.len(), forall|i: int| 0 <= i < d.len() ==> #[trigger] s[i] == d[i].cells().len()
    ensures sum(s) == cat_cells(d).len() decreases d.len()
{ if d.len() > 0 { assert(s.drop_last().len() == d.drop_last().len()); lemma_sizes(d.drop_last(), s.drop_last()); assert(s[s.len() - 1] == d[d.len() - 1].cells().len()); } }
"""


def concat(u):
    u.item(CC, "struct ConcatColumnData", rewrites=[K.PUBF])
    u.text(CONCATSPEC)
    IT = [(r"<'a, I>", "", "sizes as a vector instead of an iterator"), (r"sizes: I", "sizes: &Vec<usize>", "sizes as a vector instead of an iterator"), (r"where\s+I: Iterator<Item = usize> \+ 'a,?", "", "")]
    u.fn(CC, "fn build_index", vis="pub", sig=IT,
         rewrites=[(r"for size in sizes \{", "for size in it: sizes.iter() {", "iterator over the sizes"), (r"acc \+= size;", "acc += *size;", "")],
         spec="requires sum(sizes@) <= usize::MAX ensures index_of(sizes@, r@)",
         loops=[dict(head=r"^for size in", spec="""
            invariant sum(sizes@) <= usize::MAX, forall|i: int| 0 <= i < sizes@.len() ==> *(#[trigger] it.seq()[i]) == sizes@[i], it.seq().len() == sizes@.len(),
                index@.len() == it.index@ + 1, acc == index@.last(), acc == sum(sizes@.take(it.index@)), index@[0] == 0,
                forall|i: int| 0 <= i < it.index@ ==> index@[i + 1] == index@[i] + #[trigger] sizes@[i]""",
            start="proof { let k = it.index@; lemma_sum_mono(sizes@, k + 1); assert(sizes@.take(k + 1).drop_last() =~= sizes@.take(k)); assert(*it.seq()[k] == sizes@[k]); }")])
    u.fn(CC, "fn find_chunk", vis="pub",
         spec="""requires sorted(index@), index@.len() >= 2
        ensures ix < index@.last() ==> r < index@.len() - 1 && index@[r as int] <= ix < index@[r + 1], ix >= index@.last() ==> r == 0""",
         loops=[dict(head=r"^while lo < hi$", spec="""
            invariant sorted(index@), lo <= hi < index@.len(), ix < index@.last() ==> index@[lo as int] <= ix && ix < index@[hi as int],
            decreases hi - lo""")])
    u.text("impl ConcatColumnData {")
    u.fn(CC, "impl ^impl ConcatColumnData$", "fn check_columns", vis="pub", sig=[(r"&\[ArcColumnData\]", "&Vec<ArcColumnData>", "")], spec="requires joinable(data@)",
         rewrites=[(r"data\.first\(\)", "vfirst(data)", "slice::first"), (r'None => panic!\([^)]*\)', "None => never()", "panic must be unreachable"),
                   (r"for column in data\.iter\(\)\.skip\(1\) \{", "for column in it: data.iter() {", "iter().skip(1) written as iter(): the comparison of the first column with itself is added"),
                   (r"panic!\(\s*\"all columns should have the same type.*?\);", "never();", "panic must be unreachable")],
         loops=[dict(head="^for column in", spec="""
            invariant joinable(data@), *first == data@[0], forall|i: int| 0 <= i < data@.len() ==> *(#[trigger] it.seq()[i]) == data@[i], it.seq().len() == data@.len()""",
            start="proof { assert(*it.seq()[it.index@] == data@[it.index@]); }")])
    u.fn(CC, "impl ^impl ConcatColumnData$", "fn concat", vis="pub", spec="requires joinable(data@) ensures r.wf(), r.ty() == data@[0].ty(), r.cells() == cat_cells(data@)",
         rewrites=[(r"let index = build_index\(data\.iter\(\)\.map\(\|(\w+)\| \1\.len\(\)\)\)", "let sz = lens(&data); proof { lemma_sizes(data@, sz@); } let index = build_index(&sz)", "iter().map(len) through a stub")],

         hints=[("before", r"Self \{ data, index \}", """proof { assert forall|i: int| 0 <= i < data@.len() implies index@[i + 1] == index@[i] + (#[trigger] data@[i]).cells().len() by { assert(sz@[i] == data@[i].cells().len()); } lemma_cat_cells(data@, index@); }""")])
    u.text("""}
impl ColumnData for ConcatColumnData {
    open spec fn wf(&self) -> bool { self.rep() }
    open spec fn ty(&self) -> SqlType { self.data@[0].ty() }
    open spec fn cells(&self) -> Seq<SVal> { cat_cells(self.data@) }
    open spec fn dict(&self) -> bool { false }
    open spec fn takes(&self, v: Value) -> bool { false }
    open spec fn stored(&self, v: Value) -> SVal { SVal::Null }""")
    I = (CC, "impl ^impl ColumnData for ConcatColumnData$")
    u.fn(*I, "fn sql_type")
    u.fn(*I, "fn save", rewrites=[(r"find_chunk\(&self\.index,", "find_chunk(self.index.as_slice(),", "deref of Vec"), (r"self\.data\[first\]\.clone_instance\(\)", "box_to_arc(clone_dyn(&self.data[first]))", "clone_instance of a dyn column through stubs (Box<dyn> as a unique Arc<dyn>)"),
                                  (r"for index in (.*?)\.\.end \{(.*?)\n        \}", r"if \1 < end { for index in \1..end {\2 } }", "empty range guarded (Verus range loops)"),
                                  (r"data\.push\(self\.at\(index\)\.into\(\)\)", "let v = cell_value(self.at(index), &data); arc_mut(&mut data).push(v)", "Value::from(ValueRef) through a stub: a column takes the cells another column of its type yields")],
         loops=[dict(head=r"^for index in", spec="""
            invariant self.rep(), self.data@.len() > first, first + 1 < self.index@.len(), end <= self.cells().len(), self.index@[first + 1] < end, data.wf(), data.ty() == self.ty(), offset <= self.index@[first + 1],
                data.cells() == self.cells().subrange(offset as int, index as int)""", end="proof { assert(data.cells() =~= self.cells().subrange(offset as int, index + 1)); }")],
         hints=[("start", "", """let _n = self.index.len(); proof {
            lemma_cat_cells(self.data@, self.index@);
            assert forall|i: int, j: int| 0 <= i <= j < self.index@.len() implies self.index@[i] <= self.index@[j] by { lemma_index_sorted(self.data@, self.index@, j); }
        }"""), ("after", r"let mut data = [^;]*;", """proof { let k = first as int; assert(self.data@[k].wf() && self.data@[k].ty() == self.data@[0].ty()); assert(self.index@[k + 1] == self.index@[k] + self.data@[k].cells().len());
            assert forall|i: int| 0 <= i < data.cells().len() implies data.cells()[i] == self.cells().subrange(offset as int, self.index@[k + 1] as int)[i] by { assert(row_is(self.data@, self.index@, k, i)); }
            assert(data.cells() =~= self.cells().subrange(offset as int, self.index@[k + 1] as int)); }"""),
            ("before", r"data\.save\(", "proof { assert(data.cells().subrange(start - offset, end - offset) =~= self.cells().subrange(start as int, end as int)); }")])
    u.text("#[verifier::external_body] fn save_keys(&self, encoder: &mut Encoder) { unimplemented!() }")
    u.fn(*I, "fn len", rewrites=[(r"self\.index\.last\(\)", "vlast(&self.index)", "slice::last")], hints=[("start", "", "proof { lemma_cat_cells(self.data@, self.index@); }")])
    u.text("// push: unimplemented!() in the source, no value is accepted\n#[verifier::external_body] fn push(&mut self, value: Value) { unimplemented!() }")
    u.fn(*I, "fn at", hints=[("start", "", """proof {
            lemma_cat_cells(self.data@, self.index@);
            assert forall|i: int, j: int| 0 <= i <= j < self.index@.len() implies self.index@[i] <= self.index@[j] by { lemma_index_sorted(self.data@, self.index@, j); }
        }"""), ("before", r"let chunk = ", """proof { let k = chunk_index as int; assert(self.index@[k + 1] == self.index@[k] + self.data@[k].cells().len());
            assert(row_is(self.data@, self.index@, k, index - self.index@[k])); }""")], rewrites=[(r"find_chunk\(&self\.index,", "find_chunk(self.index.as_slice(),", "deref of Vec")])
    u.text("}")


BLOCKSPEC = """
// ---- a block as the user sees it: named, typed columns of cells ----
pub struct ColV { pub name: Seq<char>, pub ty: SqlType, pub cells: Seq<SVal> }
impl<K: ColumnType> Column<K> { pub open spec fn v(&self) -> ColV { ColV { name: self.title(), ty: self.ty(), cells: self.cells() } } }
pub open spec fn colvs<K: ColumnType>(c: Seq<Column<K>>) -> Seq<ColV> { Seq::new(c.len(), |i: int| c[i].v()) }
impl<K: ColumnType> Block<K> {
    pub open spec fn rows(&self) -> nat { if self.columns@.len() == 0 { 0 } else { self.columns@[0].cells().len() } }
    pub open spec fn wf(&self) -> bool { forall|i: int| 0 <= i < self.columns@.len() ==> (#[trigger] self.columns@[i]).wf() && self.columns@[i].cells().len() == self.rows() }
    pub open spec fn v(&self) -> Seq<ColV> { colvs(self.columns@) }
}
pub open spec fn dec_info(s: Seq<u8>, ov: bool, bn: i32) -> Option<(bool, i32, Seq<u8>)> decreases s.len() {
    match dec(s) {
        Dec::Val(v, k) => if !(0 < k <= s.len()) { None }
            else if v == 0 { Some((ov, bn, s.skip(k as int))) }
            else if v == 1 { if s.len() < k + 1 { None } else { dec_info(s.skip(k as int).skip(1), s[k as int] != 0, bn) } }
            else if v == 2 { if s.len() < k + 4 { None } else { dec_info(s.skip(k as int).skip(4), ov, <i32 as Unmarshal<i32>>::of_bytes(s.skip(k as int).take(4))) } }
            else { None },
        _ => None,
    }
}
pub open spec fn cols_read(c: Seq<ColV>, rows: nat, s: Seq<u8>, e: Seq<u8>, tz: Tz) -> bool decreases c.len() {
    if c.len() == 0 { s == e }
    else { exists|m: Seq<u8>| cols_read(c.drop_last(), rows, s, m, tz) && #[trigger] read_col(c.last().name, c.last().ty, c.last().cells, m, e, tz) && c.last().cells.len() == rows }
}
pub open spec fn cols_wrote(c: Seq<ColV>, s: Seq<u8>, e: Seq<u8>) -> bool decreases c.len() {
    if c.len() == 0 { s == e }
    else { exists|m: Seq<u8>| cols_wrote(c.drop_last(), s, m) && #[trigger] wrote_col(c.last().name, c.last().ty, c.last().cells, m, e) }
}
pub proof fn cols_read_snoc(c: Seq<ColV>, v: ColV, rows: nat, s: Seq<u8>, m: Seq<u8>, e: Seq<u8>, tz: Tz)
    requires cols_read(c, rows, s, m, tz), read_col(v.name, v.ty, v.cells, m, e, tz), v.cells.len() == rows ensures cols_read(c.push(v), rows, s, e, tz)
{ let d = c.push(v); assert(d.drop_last() =~= c); assert(d.last() == v); assert(read_col(d.last().name, d.last().ty, d.last().cells, m, e, tz)); }
pub proof fn cols_wrote_snoc(c: Seq<ColV>, v: ColV, s: Seq<u8>, m: Seq<u8>, e: Seq<u8>)
    requires cols_wrote(c, s, m), wrote_col(v.name, v.ty, v.cells, m, e) ensures cols_wrote(c.push(v), s, e)
{ let d = c.push(v); assert(d.drop_last() =~= c); assert(d.last() == v); assert(wrote_col(d.last().name, d.last().ty, d.last().cells, m, e)); }
pub open spec fn info_bytes(i: BlockInfo) -> Seq<u8> { enc(1) + i.is_overflows.bytes() + enc(2) + i.bucket_num.bytes() + enc(0) }
pub open spec fn block_read(info: BlockInfo, c: Seq<ColV>, s: Seq<u8>, e: Seq<u8>, tz: Tz) -> bool {
    dec_info(s, false, -1i32) matches Some((ov, bn, s1)) && info.is_overflows == ov && info.bucket_num == bn
        && (dec(s1) matches Dec::Val(nc, k1) && c.len() == nc && (dec(s1.skip(k1 as int)) matches Dec::Val(nr, k2)
            && cols_read(c, nr as nat, s1.skip(k1 as int).skip(k2 as int), e, tz)))
}
pub open spec fn block_wrote(info: BlockInfo, c: Seq<ColV>, rows: nat, s: Seq<u8>, e: Seq<u8>) -> bool {
    cols_wrote(c, s + info_bytes(info) + enc(c.len()) + enc(rows), e)
}
pub open spec fn block_framed(info: BlockInfo, c: Seq<ColV>, rows: nat, s: Seq<u8>, e: Seq<u8>) -> bool {
    exists|plain: Seq<u8>, comp: Seq<u8>| #[trigger] block_wrote(info, c, rows, Seq::empty(), plain) && #[trigger] lz4(comp, plain) && e == s + frame(comp, plain)
}
// LZ4 and the header of a frame can describe blocks of up to LZ4_MAX_INPUT_SIZE bytes
pub open spec fn fits(info: BlockInfo, c: Seq<ColV>, rows: nat) -> bool { forall|b: Seq<u8>| #[trigger] block_wrote(info, c, rows, Seq::empty(), b) ==> b.len() <= 0x7E00_0000 }
#[verifier::external_body] pub fn LZ4_compressBound(n: i32) -> (r: i32) requires 0 <= n <= 0x7E00_0000 ensures r == n + n / 255 + 16 { unimplemented!() }
#[verifier::external_body] pub fn lz4_compress_at(src: &Vec<u8>, dst: &mut Vec<u8>, at: usize, n: i32) -> (r: i32)
    requires n == src@.len(), 0 <= n <= 0x7E00_0000, at + n + n / 255 + 16 <= old(dst)@.len()
    ensures final(dst)@.len() == old(dst)@.len(), 0 < r, at + r <= final(dst)@.len(), lz4(final(dst)@.subrange(at as int, at + r), src@) { unimplemented!() }
"""


def info(u):
    u.item(BI, "const BLOCK_INFO_OVERFLOWS")
    u.item(BI, "const BLOCK_INFO_BUCKET_NUM")
    u.item(BI, "const END_FIELD")
    u.item(BI, "struct BlockInfo", attrs="#[derive(Clone, Copy)]", rewrites=[K.PUBF])
    u.item(B, "struct Block", rewrites=[K.PUBF, (r"= Simple", "", "default type parameter written out")])
    u.text(BLOCKSPEC)
    u.text("impl BlockInfo {")
    u.fn(BI, "impl ^impl Default for BlockInfo", "fn default", vis="pub", spec="ensures r.is_overflows == false, r.bucket_num == -1i32")
    u.fn(BI, "impl ^impl BlockInfo$", "fn read", vis="pub", spec="""ensures same_end(*final(reader), *old(reader)),
        r matches Ok(i) ==> dec_info(old(reader).rest(), false, -1i32) == Some((i.is_overflows, i.bucket_num, final(reader).rest()))""",
         loops=[dict(head="^loop$", spec="""
            invariant_except_break dec_info(old(reader).rest(), false, -1i32) == dec_info(reader.rest(), block_info.is_overflows, block_info.bucket_num), same_end(*reader, *old(reader))
            ensures dec_info(old(reader).rest(), false, -1i32) == Some((block_info.is_overflows, block_info.bucket_num, reader.rest())), same_end(*reader, *old(reader))
            decreases reader.rest().len()""", start="proof { lemma_str(reader.rest()); one_byte(reader.rest()); } let ghost _s0 = reader.rest();")])
    u.fn(BI, "impl ^impl BlockInfo$", "fn write", vis="pub", spec="ensures final(encoder)@ == old(encoder)@ + info_bytes(*self)",
         hints=[("end", "", "proof { assert(encoder@ =~= old(encoder)@ + info_bytes(*self)); }")])
    u.text("""}
pub proof fn one_byte(s: Seq<u8>) ensures forall|k: int| 0 <= k && s.len() >= k + 1 ==> bool::of_bytes(#[trigger] s.skip(k).take(1)) == (s[k] != 0) {}
""")


SP = "final({0}).wf(), final({0}).columns@.len() == old({0}).columns@.len() + 1"


def block(u):
    G = (B, r"impl ^impl<K: ColumnType> Block<K>")
    u.item(B, "const DEFAULT_CAPACITY")
    u.text("""
pub trait ColumnFrom: Sized { spec fn arc(self) -> ArcColumnData; fn column_from(source: Self) -> (r: ArcColumnData) ensures r == source.arc(); }
impl<K: ColumnType> ColumnFrom for Column<K> { open spec fn arc(self) -> ArcColumnData { self.data }""")
    u.fn(M, "impl ^impl<K: ColumnType> ColumnFrom for Column<K>", "fn column_from", sig=[(r"<W: ColumnWrapper>", "", "wrapper instantiated at ArcColumnWrapper"), (r"W::Wrapper", "ArcColumnData", "")],
         rewrites=[(r"W::wrap_arc\(source\.data\)", "source.data", "ArcColumnWrapper::wrap_arc is the identity")])
    u.text("}\nimpl<K: ColumnType> Block<K> {")
    u.fn(*G, "fn row_count", vis="pub", spec="requires self.wf() ensures r == self.rows()", rewrites=[(r"self\.columns\.first\(\)", "vfirst(&self.columns)", "slice::first")])
    u.fn(*G, "fn column_count", vis="pub", spec="ensures r == self.columns@.len()")
    u.fn(*G, "fn columns", vis="pub", spec="ensures r@ == self.columns@")
    u.fn(*G, "fn is_empty", vis="pub", spec="ensures r == (self.columns@.len() == 0)")
    u.fn(*G, "fn append_column", vis="pub", spec="""requires old(self).wf(), column.wf(), old(self).columns@.len() > 0 ==> column.cells().len() == old(self).rows()
        ensures final(self).wf(), final(self).columns@ == old(self).columns@.push(column), final(self).info == old(self).info, final(self).capacity == old(self).capacity""",
         rewrites=[(r'panic!\("all columns in block must have same size\."\)', "never()", "panic must be unreachable")],
         hints=[("after", r"self\.columns\.push\(column\);", "proof { assert forall|i: int| 0 <= i < self.columns@.len() implies (#[trigger] self.columns@[i]).wf() && self.columns@[i].cells().len() == self.rows() by { if i < old(self).columns@.len() { assert(self.columns@[i] == old(self).columns@[i]); } } }")])
    u.fn(*G, "fn column", vis="pub", rewrites=[(r"S::column_from::<ArcColumnWrapper>\(", "S::column_from(", "wrapper instantiated at ArcColumnWrapper"), (r"column::new_column\(", "new_column(", "module path"), (r"\bself\b", "this", "by-value self renamed to hold it mutably")],
         sig=[(r"\bmut self\b", "self", "")], hints=[("start", "", "let mut this = self;")],
         spec="""requires self.wf(), values.arc().wf(), self.columns@.len() > 0 ==> values.arc().cells().len() == self.rows()
        ensures r.wf(), r.columns@.len() == self.columns@.len() + 1, r.v() == self.v().push(ColV { name: name@, ty: values.arc().ty(), cells: values.arc().cells() }), r.info == self.info""",
         )
    u.text("}\nimpl Block<Simple> {")
    N = (B, "impl ^impl Block$")
    u.fn(*N, "fn new", vis="pub", spec="ensures r.wf(), r.columns@.len() == 0, r.info.is_overflows == false, r.info.bucket_num == -1i32")
    u.fn(*N, "fn with_capacity", vis="pub", spec="ensures r.wf(), r.columns@.len() == 0, r.info.is_overflows == false, r.info.bucket_num == -1i32",
         rewrites=[(r"Default::default\(\)", "BlockInfo::default()", "Default of BlockInfo")])
    u.fn(*N, "fn raw_load", vis="pub", spec="""ensures same_end(*final(reader), *old(reader)),
        r matches Ok(b) ==> b.wf() && block_read(b.info, b.v(), old(reader).rest(), final(reader).rest(), tz)""",
         rewrites=[(r"for _ in 0\.\.num_columns \{", "for i in 0..num_columns {", "loop variable named")],
         loops=[dict(head="^for i in 0", before="let ghost s2 = reader.rest();", spec="""
            invariant same_end(*reader, *old(reader)), block.wf(), block.columns@.len() == i, i <= num_columns,
                forall|j: int| 0 <= j < i ==> (#[trigger] block.columns@[j]).cells().len() == num_rows as usize,
                cols_read(block.v(), num_rows as nat, s2, reader.rest(), tz),
                block.info == info0""", start="let ghost m0 = reader.rest(); let ghost b0 = block;",
            end="""proof {
                let c = block.columns@[i as int].v();
                cols_read_snoc(b0.v(), c, num_rows as nat, s2, m0, reader.rest(), tz);
                assert(block.v() =~= b0.v().push(c));
            }""")],
         hints=[("after", r"block\.info = BlockInfo::read\(reader\)\?;", "let ghost info0 = block.info;"),
                ("before", r"for i in 0", "proof { assert(block.v() =~= Seq::<ColV>::empty()); }"),
                ])
    u.fn(*N, "fn load", vis="pub", spec="""ensures final(reader).steady() == old(reader).steady(), final(reader).anchor() == old(reader).anchor(),
        r matches Ok(b) ==> b.wf() && if compress { exists|left: Seq<u8>| block_read(b.info, b.v(), unframe(old(reader).rest()), #[trigger] (left + unframe(final(reader).rest())), tz) }
            else { block_read(b.info, b.v(), old(reader).rest(), final(reader).rest(), tz) }""",
         rewrites=[(r"R: Read \+ ReadEx", "R: ReadEx", ""), (r"compressed::make\(reader\)", "make(reader)", "module path"),
                   (r"Self::raw_load\(&mut cr, tz\)$", "{ let r = Self::raw_load(&mut cr, tz); proof { let left = cr.cursor.left(); assert(cr.rem() == left + unframe(cr.reader.rest())); } r }", "")],
         sig=[(r"R: Read \+ ReadEx", "R: ReadEx", "blanket ReadEx for Read: the bound is implied")])
    u.text("}\nimpl<K: ColumnType> Block<K> {")
    u.fn(*G, "fn write", vis="pub",
         rewrites=[(r"unsafe \{", "{", "unsafe block around calls of stubs"),
                   (r"LZ4_compress_default\(\s*tmp\.as_ptr\(\) as \*const c_char,\s*\(buf\.as_mut_ptr\(\) as \*mut c_char\)\.add\((\d+)\),\s*tmp\.len\(\) as i32,\s*buf\.len\(\) as i32,?\s*\)", r"lz4_compress_at(&tmp, &mut buf, \1, tmp.len() as i32)", "LZ4 FFI call through a stub (pointers replaced by vector and offset)"),
                   (r"Cursor::new\(&mut buf\)", "0usize", "io::Cursor as a position"),
                   (r"cursor\.write_u8\((.*?)\)\.unwrap\(\)", r"put_u8(&mut buf, &mut cursor, \1)", "io::Cursor write through a stub"),
                   (r"cursor\.write_u32::<LittleEndian>\((.*?)\)\.unwrap\(\)", r"put_u32(&mut buf, &mut cursor, \1)", "io::Cursor write through a stub"),
                   (r"buf\.as_ref\(\)", "buf.as_slice()", "AsRef<[u8]> for Vec<u8>"),
                   (r"for column in &self\.columns \{", "for column in it: self.columns.iter() {", "reference iteration written as iter()")],
         spec="""requires self.wf(), compress ==> fits(self.info, self.v(), self.rows())
        ensures !compress ==> block_wrote(self.info, self.v(), self.rows(), old(encoder)@, final(encoder)@), compress ==> block_framed(self.info, self.v(), self.rows(), old(encoder)@, final(encoder)@)
        decreases if compress { 1nat } else { 0nat }""",
         loops=[dict(head="^for column in it", before="let ghost s2 = encoder@; proof { assert(self.v().take(0) =~= Seq::<ColV>::empty()); }", spec="""
            invariant self.wf(), forall|i: int| 0 <= i < self.columns@.len() ==> *(#[trigger] it.seq()[i]) == self.columns@[i], it.seq().len() == self.columns@.len(),
                cols_wrote(self.v().take(it.index@), s2, encoder@)""",
            start="let ghost m0 = encoder@; let ghost k = it.index@; proof { assert(*it.seq()[k] == self.columns@[k]); }",
            end="proof { let c = self.columns@[k].v(); cols_wrote_snoc(self.v().take(k), c, s2, m0, encoder@); assert(self.v().take(k + 1) =~= self.v().take(k).push(c)); }",
            after="proof { assert(self.v().take(self.columns@.len() as int) =~= self.v()); }")],
         hints=[("before", r"let buf_len", "let ghost comp = buf@.skip(9);"), ("before", r"let hash = ", "proof { lemma_le_len(buf_len as nat, 4); lemma_le_len(tmp@.len(), 4); assert(buf@ =~= frame_body(comp, tmp@)); }"),
                ("after", r"encoder\.write_bytes\(buf\.as_slice\(\)\);", "proof { assert(encoder@ =~= old(encoder)@ + frame(comp, tmp@)); }"),
                ("after", r"buf\.resize\(9 \+ size as usize, 0_u8\);", "proof { assert(buf@.skip(9) =~= packed@.subrange(9, 9 + size)); }"),
                ("before", r"buf\.resize\(9 \+ size", "let ghost packed = buf;")])
    u.fn(*G, "fn send_data", vis="pub", rewrites=[(r"protocol::CLIENT_DATA", "CLIENT_DATA", "module path")],
         spec="""requires self.wf(), compress ==> fits(self.info, self.v(), self.rows())
        ensures ({ let s = old(encoder)@ + enc(2) + enc_str(Seq::empty()); if compress { block_framed(self.info, self.v(), self.rows(), s, final(encoder)@) } else { block_wrote(self.info, self.v(), self.rows(), s, final(encoder)@) } })""",
         hints=[("start", "", 'proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }')])
    u.text("}")


CHUNKSPEC = """
// rows [a, b) of a block, as a block
pub open spec fn rows_of(c: Seq<ColV>, a: int, b: int) -> Seq<ColV> { Seq::new(c.len(), |i: int| ColV { name: c[i].name, ty: c[i].ty, cells: c[i].cells.subrange(a, b) }) }
#[verifier::external_body] pub fn block_default<K: ColumnType>() -> (r: Block<K>) ensures r.wf(), r.columns@.len() == 0 { unimplemented!() }
pub open spec fn least(a: int, b: int) -> int { if a <= b { a } else { b } }
// ---- the chunks an iterator starting at row `pos` yields, and what they add up to ----
pub open spec fn chunk_at(c: Seq<ColV>, rows: int, n: int, pos: int) -> Seq<ColV> { rows_of(c, pos, pos + least(n, rows - pos)) }
pub open spec fn chunks_from(c: Seq<ColV>, rows: int, n: int, pos: int) -> Seq<Seq<ColV>> decreases rows - pos {
    if n <= 0 || pos >= rows || pos < 0 { Seq::empty() } else { seq![chunk_at(c, rows, n, pos)] + chunks_from(c, rows, n, pos + least(n, rows - pos)) }
}
pub open spec fn joined(cs: Seq<Seq<ColV>>, i: int) -> Seq<SVal> decreases cs.len() { if cs.len() == 0 { Seq::empty() } else { cs[0][i].cells + joined(cs.skip(1), i) } }
// every row exactly once and in order, in chunks of at most n rows
pub proof fn theorem_chunks_deliver_every_row_once(c: Seq<ColV>, rows: int, n: int, pos: int)
    requires n > 0, 0 <= pos <= rows, forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).cells.len() == rows
    ensures
        forall|i: int| 0 <= i < c.len() ==> #[trigger] joined(chunks_from(c, rows, n, pos), i) == c[i].cells.subrange(pos, rows),
        forall|k: int, i: int| 0 <= k < chunks_from(c, rows, n, pos).len() && 0 <= i < c.len() ==> 0 < (#[trigger] chunks_from(c, rows, n, pos)[k][i]).cells.len() <= n && chunks_from(c, rows, n, pos)[k][i].name == c[i].name && chunks_from(c, rows, n, pos)[k][i].ty == c[i].ty
    decreases rows - pos
{
    let cs = chunks_from(c, rows, n, pos);
    if pos < rows {
        let p = pos + least(n, rows - pos);
        theorem_chunks_deliver_every_row_once(c, rows, n, p);
        assert(cs.skip(1) =~= chunks_from(c, rows, n, p));
        assert(cs[0] == chunk_at(c, rows, n, pos));
        assert forall|i: int| 0 <= i < c.len() implies #[trigger] joined(cs, i) == c[i].cells.subrange(pos, rows) by {
            assert(joined(cs, i) == cs[0][i].cells + joined(cs.skip(1), i));
            assert(joined(chunks_from(c, rows, n, p), i) == c[i].cells.subrange(p, rows));
            assert(c[i].cells.subrange(pos, p) + c[i].cells.subrange(p, rows) =~= c[i].cells.subrange(pos, rows));
        }
        assert forall|k: int, i: int| 0 <= k < cs.len() && 0 <= i < c.len() implies 0 < (#[trigger] cs[k][i]).cells.len() <= n && cs[k][i].name == c[i].name && cs[k][i].ty == c[i].ty by {
            if k > 0 { assert(cs[k] == cs.skip(1)[k - 1]); assert(chunks_from(c, rows, n, p)[k - 1][i].cells.len() <= n); }
        }
    } else {
        assert forall|i: int| 0 <= i < c.len() implies #[trigger] joined(cs, i) == c[i].cells.subrange(pos, rows) by { assert(c[i].cells.subrange(pos, rows) =~= Seq::empty()); }
    }
}
"""


def chunks(u):
    u.item(CI, "struct ChunkIterator", rewrites=[K.PUBF])
    u.text(CHUNKSPEC)
    u.text("impl<K: ColumnType> ChunkIterator<K> {")
    u.fn(CI, "impl ^impl<K: ColumnType> ChunkIterator<K>", "fn new", spec="ensures r.position == 0, r.size == size, r.block == block")
    u.fn(CI, "impl ^impl<K: ColumnType> Iterator for ChunkIterator<K>", "fn next", vis="pub", sig=[(r"Option<Block>", "Option<Block<Simple>>", "default type parameter written out")],
         rewrites=[(r"Block::default\(\)", "block_default()", "derived Default"), (r"cmp::min\(", "min_usize(", "cmp::min through its definition"), (r"Block::new\(\)", "Block::<Simple>::new()", ""),
                   (r"for column in self\.block\.columns\(\)\.iter\(\) \{", "for column in it: self.block.columns.iter() {", "columns() is the slice of columns")],
         spec="""requires old(self).block.wf(), old(self).size > 0, old(self).position <= old(self).block.rows() || old(self).block.rows() == 0, old(self).position <= old(self).block.rows() + 1
        ensures final(self).block == old(self).block, final(self).size == old(self).size, ({
            let m = old(self).block.rows() as int; let p = old(self).position as int; let q = p + least(old(self).size as int, m - p);
            if m == 0 && p == 0 { r matches Some(b) && b.wf() && b.columns@.len() == 0 && final(self).position == 1 }
            else if p >= m { r is None && final(self).position == p }
            else { r matches Some(b) && b.wf() && b.v() == chunk_at(old(self).block.v(), m, old(self).size as int, p) && final(self).position == q }
        })""",
         loops=[dict(head="^for column in it", before="proof { assert(result.v() =~= rows_of(self.block.v(), self.position as int, self.position + size).take(0)); }", spec="""
            invariant *self == *old(self), self.block.wf(), forall|i: int| 0 <= i < self.block.columns@.len() ==> *(#[trigger] it.seq()[i]) == self.block.columns@[i], it.seq().len() == self.block.columns@.len(),
                self.position + size <= self.block.rows(), m == self.block.rows(), result.wf(), result.columns@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> (#[trigger] result.columns@[i]).cells().len() == size,
                result.v() == rows_of(self.block.v(), self.position as int, self.position + size).take(it.index@)""",
            start="let ghost k = it.index@; let ghost r0 = result; proof { assert(*it.seq()[k] == self.block.columns@[k]); assert(self.block.columns@[k].wf()); }",
            end="""proof { let w = rows_of(self.block.v(), self.position as int, self.position + size); assert(w.take(k + 1) =~= w.take(k).push(w[k]));
                assert(result.v()[k].cells.len() == size); assert forall|i: int| 0 <= i < k + 1 implies (#[trigger] result.columns@[i]).cells().len() == size by { assert(result.columns@[i].cells() == result.v()[i].cells); if i < k { assert(result.v()[i] == r0.v()[i]); assert(r0.columns@[i].cells().len() == size); } } }""",
            after="proof { let w = rows_of(self.block.v(), self.position as int, self.position + size); assert(w.take(self.block.columns@.len() as int) =~= w); }")])
    u.text("}\nimpl<K: ColumnType> Block<K> {")
    u.fn(B, r"impl ^impl<K: ColumnType> Block<K>", "fn chunks", vis="pub", spec="ensures r.position == 0, r.size == n, r.block == self")
    u.text("}")


CASTSPEC = """
// conversion of a whole column to the table's column type (Column::cast_to: adapters verified in their own units, dispatch bounded)
pub uninterp spec fn cast_cells(src: SqlType, dst: SqlType, c: Seq<SVal>) -> Seq<SVal>;
impl<K: ColumnType> Column<K> {
    #[verifier::external_body] pub fn cast_to(self, dst_type: SqlType) -> (r: Result<Self>)
        ensures r matches Ok(c) ==> c.wf() && c.ty() == dst_type && c.title() == self.title() && c.cells().len() == self.cells().len()
            && c.cells() == (if self.ty() == dst_type { self.cells() } else { cast_cells(self.ty(), dst_type, self.cells()) }) { unimplemented!() }
}
#[verifier::external_body] pub fn cols_clone<K: ColumnType>(c: &Vec<Column<K>>) -> (r: Vec<Column<K>>) ensures r@ == c@ { unimplemented!() }
#[verifier::external_body] pub fn vec_reverse<T>(v: &mut Vec<T>) ensures final(v)@ == old(v)@.reverse() { v.reverse() }
pub open spec fn casted(src: ColV, dst: SqlType, r: ColV) -> bool {
    r.name == src.name && r.ty == dst && r.cells == (if src.ty == dst { src.cells } else { cast_cells(src.ty, dst, src.cells) })
}
"""


def cast(u):
    u.text(CASTSPEC)
    u.text("impl<K: ColumnType> Block<K> {")
    u.fn(B, r"impl ^impl<K: ColumnType> Block<K>", "fn cast_to", vis="pub",
         spec="""requires self.wf(), header.wf()
        ensures r matches Ok(b) ==> b.wf() && b.v().len() == self.v().len() && b.v().len() == header.v().len()
            && forall|i: int| 0 <= i < b.v().len() ==> casted(self.v()[i], header.v()[i].ty, #[trigger] b.v()[i])""",
         rewrites=[(r"self\.columns\.clone\(\)", "cols_clone(&self.columns)", "clone of the column vector"), (r"let mut new_columns =", "let mut new_columns: Vec<Column<K>> =", "type annotation"), (r"columns\.reverse\(\)", "vec_reverse(&mut columns)", "slice::reverse"),
                   (r"for column in header\.columns\(\) \{", "for column in it: header.columns.iter() {", "columns() is the slice of columns")],
         loops=[dict(head="^for column in it", before="proof { assert(self.columns@.reverse().len() == self.columns@.len()); }", spec="""
            invariant self.wf(), header.wf(), header.columns@.len() == self.columns@.len(), forall|i: int| 0 <= i < header.columns@.len() ==> *(#[trigger] it.seq()[i]) == header.columns@[i], it.seq().len() == header.columns@.len(),
                columns@ == self.columns@.skip(it.index@).reverse(), new_columns@.len() == it.index@,
                forall|i: int| 0 <= i < it.index@ ==> (#[trigger] new_columns@[i]).wf() && casted(self.v()[i], header.v()[i].ty, new_columns@[i].v()) && new_columns@[i].cells().len() == self.rows()""",
            start="let ghost k = it.index@; proof { assert(*it.seq()[k] == header.columns@[k]); assert(header.columns@[k].wf()); assert(self.columns@[k].wf()); assert(columns@.last() == self.columns@[k]); assert(columns@.drop_last() =~= self.columns@.skip(k + 1).reverse()); }",
            end="proof { assert(new_columns@[k].v().cells == new_columns@[k].cells()); }")],
         hints=[("before", r"Ok\(Block", "proof { assert(colvs(new_columns@).len() == self.v().len()); assert forall|i: int| 0 <= i < new_columns@.len() implies casted(self.v()[i], header.v()[i].ty, #[trigger] colvs(new_columns@)[i]) by { assert(new_columns@[i].wf()); } }"),
                ("before", r"for column in it", "proof { assert(columns@ =~= self.columns@.skip(0).reverse()); }")])
    u.text("}")


JOINSPEC = """
#[verifier::external_body] pub fn column_of(bs: &Vec<Block<Simple>>, i: usize) -> (r: Vec<Column<Simple>>)
    requires forall|k: int| 0 <= k < bs@.len() ==> i < (#[trigger] bs@[k]).columns@.len()
    ensures r@.len() == bs@.len(), forall|k: int| 0 <= k < bs@.len() ==> #[trigger] r@[k] == bs@[k].columns@[i as int] { unimplemented!() }
#[verifier::external_body] pub fn datas(c: &Vec<Column<Simple>>) -> (r: Vec<ArcColumnData>)
    ensures r@.len() == c@.len(), forall|k: int| 0 <= k < c@.len() ==> #[trigger] r@[k] == c@[k].data { unimplemented!() }
#[verifier::external_body] pub fn total_capacity(bs: &Vec<Block<Simple>>) -> usize { unimplemented!() }
pub open spec fn datas_of(c: Seq<Column<Simple>>) -> Seq<ArcColumnData> { Seq::new(c.len(), |k: int| c[k].data) }
pub open spec fn column_datas(bs: Seq<Block<Simple>>, i: int) -> Seq<ArcColumnData> { Seq::new(bs.len(), |k: int| bs[k].columns@[i].data) }
// blocks of one result: same columns in each, together addressable
pub open spec fn alike(bs: Seq<Block<Simple>>) -> bool {
    &&& forall|k: int| 0 <= k < bs.len() ==> (#[trigger] bs[k]).wf() && bs[k].columns@.len() == bs[0].columns@.len()
    &&& forall|i: int| 0 <= i < bs[0].columns@.len() ==> joinable(#[trigger] column_datas(bs, i))
}
pub open spec fn joins(bs: Seq<Block<Simple>>, i: int) -> ColV { ColV { name: bs[0].columns@[i].title(), ty: bs[0].columns@[i].ty(), cells: cat_cells(column_datas(bs, i)) } }
pub open spec fn total_rows(bs: Seq<Block<Simple>>) -> nat decreases bs.len() { if bs.len() == 0 { 0 } else { total_rows(bs.drop_last()) + bs.last().rows() } }
pub proof fn lemma_total(bs: Seq<Block<Simple>>, i: int)
    requires 0 <= i, forall|k: int| 0 <= k < bs.len() ==> (#[trigger] bs[k]).wf() && i < bs[k].columns@.len()
    ensures cat_cells(column_datas(bs, i)).len() == total_rows(bs) decreases bs.len()
{
    if bs.len() > 0 {
        lemma_total(bs.drop_last(), i);
        assert(column_datas(bs, i).drop_last() =~= column_datas(bs.drop_last(), i));
        assert(bs.last() == bs[bs.len() - 1]); assert(bs.last().columns@[i].cells().len() == bs.last().rows());
        assert(column_datas(bs, i).last() == bs.last().columns@[i].data);
    }
}
"""


def join(u):
    u.text(JOINSPEC)
    u.text("impl Column<Simple> {")
    u.fn(M, "impl ^impl Column<Simple>", "fn concat", vis="pub", sig=[(r"<'a, I>", "", "the columns as a vector instead of an iterator"), (r"items: I", "items: Vec<Column<Simple>>", ""), (r"where\s+I: Iterator<Item = &'a Self>,?", "", "")],
         rewrites=[(r"items\.collect\(\)", "items", "collect of the iterator"), (r"Vec<&Self>", "Vec<Self>", ""), (r"items_vec\.iter\(\)\.map\(\|(\w+)\| \1\.data\.clone\(\)\)\.collect\(\)", "datas(&items_vec)", "iterator chain through a stub"),
                   (r"Vec<_>", "Vec<ArcColumnData>", ""),
                   (r"match items_vec\.first\(\)", "match vfirst(&items_vec)", "slice::first"), (r"unreachable!\(\)", "never()", "must be unreachable"), (r"\.name\(\)\.to_string\(\)", ".name.clone()", "name().to_string()"),
                   (r"first_column\.name\.clone\(\)", "string_clone(&first_column.name)", ""), (r"Arc::new\(data\)", "arc_col(data)", "Arc<dyn ColumnData> through a stub"), (r"marker::PhantomData", "core::marker::PhantomData", "module path")],
         hints=[("after", r"= datas\(&items_vec\);", "proof { assert(chunks@ =~= datas_of(items_vec@)); }")],
         spec="requires joinable(datas_of(items@)) ensures r.wf(), r.title() == items@[0].title(), r.ty() == items@[0].ty(), r.cells() == cat_cells(datas_of(items@))")
    u.text("}\nimpl Block<Simple> {")
    u.fn(B, r"impl ^impl Block<Simple>", "fn concat", vis="pub", sig=[(r"&\[Self\]", "&Vec<Self>", "slice as the vector it comes from")],
         rewrites=[(r"let Some\(first\) = blocks\.first\(\) else \{\s*return Block::default\(\);\s*\};", "let first = match vfirst(blocks) { None => return block_default(), Some(f) => f };", "let-else written as match"),
                   (r"for block in blocks \{", "for block in itb: blocks.iter() {", "reference iteration written as iter()"),
                   (r"assert_eq!\(\s*first\.column_count\(\),\s*block\.column_count\(\),.*?\);", "assert_same(first.column_count(), block.column_count());", "assert_eq! must hold"),
                   (r"let chunks = blocks\.iter\(\)\.map\(\|block\| &block\.columns\[i\]\);", "let chunks = column_of(blocks, i);", "iterator chain through a stub"),
                   (r"blocks\.iter\(\)\.map\(\|(\w+)\| \1\.capacity\)\.sum\(\)", "total_capacity(blocks)", "capacity is only a hint"),
                   (r"let mut columns =", "let mut columns: Vec<Column<Complex>> =", "type annotation"), (r"0_usize\.\.num_columns", "0..num_columns", ""),],
         spec="""requires blocks@.len() > 0 ==> alike(blocks@)
        ensures blocks@.len() == 0 ==> r.columns@.len() == 0, blocks@.len() > 0 ==> r.wf() && r.v().len() == blocks@[0].columns@.len() && forall|i: int| 0 <= i < r.v().len() ==> #[trigger] r.v()[i] == joins(blocks@, i)""",
         loops=[dict(head="^for block in itb", spec="""
            invariant blocks@.len() > 0, alike(blocks@), *first == blocks@[0], forall|k: int| 0 <= k < blocks@.len() ==> *(#[trigger] itb.seq()[k]) == blocks@[k], itb.seq().len() == blocks@.len()""",
            start="proof { assert(*itb.seq()[itb.index@] == blocks@[itb.index@]); }"),
            dict(head=r"^for i in 0", spec="""
            invariant blocks@.len() > 0, alike(blocks@), *first == blocks@[0], num_columns == blocks@[0].columns@.len(), columns@.len() == i,
                forall|k: int| 0 <= k < i ==> (#[trigger] columns@[k]).wf() && columns@[k].v() == joins(blocks@, k) && columns@[k].cells().len() == total_rows(blocks@)""",
            end="proof { assert(datas_of(cs0) =~= column_datas(blocks@, i as int)); lemma_total(blocks@, i as int); assert(columns@[i as int].v() == joins(blocks@, i as int)); }")],
         hints=[("after", r"let chunks = column_of\(blocks, i\);", "let ghost cs0 = chunks@; proof { assert(datas_of(cs0) =~= column_datas(blocks@, i as int)); assert(joinable(column_datas(blocks@, i as int))); }")])
    u.text("}")


def build():
    u = K.prelude("blocks", ints=("u8", "u32", "u64", "i32"))
    u.text(K.LOADDATA)
    u.text(ARCGET)
    column(u)
    u.text("pub proof fn arc_len(a: &ArcColumnData) {}")
    chunk(u)
    concat(u)
    FR.frames(u)
    info(u)
    u.item("src/binary/protocol.rs", "const CLIENT_DATA")
    block(u)
    chunks(u)
    cast(u)
    join(u)
    u.text("} fn main() {}")
    return u
