"""Reading cells of a block by row and column (P17): ColumnIdx, Block::get, get_column, rows, Row."""
from . import cols as K, blocks as BL, from_sql as FS

B = "src/types/block/mod.rs"
R = "src/types/block/row.rs"

SPEC = """
pub open spec fn titles<K: ColumnType>(c: Seq<Column<K>>) -> Seq<Seq<char>> { Seq::new(c.len(), |i: int| c[i].title()) }
// i is the first column of that name
pub open spec fn first_named(t: Seq<Seq<char>>, name: Seq<char>, i: int) -> bool { 0 <= i < t.len() && t[i] == name && forall|j: int| 0 <= j < i ==> #[trigger] t[j] != name }
pub open spec fn absent(t: Seq<Seq<char>>, name: Seq<char>) -> bool { forall|j: int| 0 <= j < t.len() ==> #[trigger] t[j] != name }
#[verifier::external_body] pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
// a way to name a column: it means a column, or none
pub trait ColumnIdx: Sized {
    spec fn means(&self, t: Seq<Seq<char>>, i: int) -> bool;
    spec fn nothing(&self, t: Seq<Seq<char>>) -> bool;
    fn get_index<K: ColumnType>(&self, columns: &[Column<K>]) -> (r: Result<usize>)
        ensures match r { Ok(i) => i < columns@.len() && self.means(titles(columns@), i as int), Err(_) => self.nothing(titles(columns@)) };
}
// what a read of a cell gives: the value of that cell when the requested type can hold it, else an error
pub open spec fn reads<'a, K: ColumnType, T: FromSql<'a>>(c: Column<K>, row: int, r: Result<T>) -> bool {
    if 0 <= row < c.cells().len() { exists|v: ValueRef| v.sv() == c.cells()[row] && #[trigger] of_kind(v, c.ty()) && (r is Ok <==> T::fits(v)) && (r matches Ok(x) ==> x.shows(v)) } else { r is Err }
}
pub open spec fn finds<'a, K: ColumnType, T: FromSql<'a>, I: ColumnIdx>(b: Block<K>, row: int, col: I, r: Result<T>) -> bool {
    ||| r is Err && col.nothing(titles(b.columns@))
    ||| exists|i: int| 0 <= i < b.columns@.len() && #[trigger] col.means(titles(b.columns@), i) && reads(b.columns@[i], row, r)
}
pub open spec fn finds_col<K: ColumnType, I: ColumnIdx>(b: Block<K>, col: I, r: Result<&Column<K>>) -> bool {
    match r { Err(_) => col.nothing(titles(b.columns@)), Ok(c) => exists|i: int| 0 <= i < b.columns@.len() && #[trigger] col.means(titles(b.columns@), i) && *c == b.columns@[i] }
}
pub broadcast proof fn cells_ok(v: ValueRef, t: SqlType) requires #[trigger] of_kind(v, t) ensures vr_ok(v) { theorem_cells_ok(v, t); }
impl<K: ColumnType> Block<K> {
    pub open spec fn wf(&self) -> bool { forall|i: int| 0 <= i < self.columns@.len() ==> (#[trigger] self.columns@[i]).wf() && self.columns@[i].cells().len() == self.rows() }
    pub open spec fn rows_n(&self) -> nat { if self.columns@.len() == 0 { 0 } else { self.columns@[0].cells().len() } }
}
"""
FIND = [(r"match columns\s*\.iter\(\)\s*\.enumerate\(\)\s*\.find\(\|\(_, (\w+)\)\| (.*?)\)\s*\{\s*None", r"let mut found: Option<(usize, &Column<K>)> = None; for i_ in 0..columns.len() { let \1 = &columns[i_]; if \2 { found = Some((i_, \1)); break; } } match found { None", "enumerate().find() as the loop it is"),
        (r"columns\s*\.iter\(\)\s*\.position\(\|(\w+)\| (.*?)\)", r"({ let mut found: Option<usize> = None; for i_ in 0..columns.len() { let \1 = &columns[i_]; if \2 { found = Some(i_); break; } } found })", "position() as the loop it is"),
        (r"(\w+\.name\(\)) == \*self", r"str_eq(\1, *self)", "comparison of str through a stub")]


def build():
    u = K.prelude("access", ints=("u8", "u64"))
    u.text(K.LOADDATA)
    u.text(BL.ARCGET)
    u.text("pub proof fn arc_len(a: &ArcColumnData) {}")
    BL.column(u, chunked=False)
    u.text(FS.VROK)
    u.text(FS.TRAIT)
    u.item("src/types/block/block_info.rs", "struct BlockInfo", attrs="#[derive(Clone, Copy)]", rewrites=[K.PUBF])
    u.item(B, "struct Block", rewrites=[K.PUBF, (r"= Simple", "", "default type parameter written out")])
    u.text(SPEC.replace("self.rows()", "self.rows_n()"))
    u.text("impl ColumnIdx for usize {\n    open spec fn means(&self, t: Seq<Seq<char>>, i: int) -> bool { i == *self }\n    open spec fn nothing(&self, t: Seq<Seq<char>>) -> bool { *self >= t.len() }")
    u.fn(B, "impl ^impl ColumnIdx for usize$", "fn get_index")
    u.text("}\nimpl<'a> ColumnIdx for &'a str {\n    open spec fn means(&self, t: Seq<Seq<char>>, i: int) -> bool { first_named(t, self@, i) }\n    open spec fn nothing(&self, t: Seq<Seq<char>>) -> bool { absent(t, self@) }")
    u.fn(B, "impl ^impl<'a> ColumnIdx for &'a str$", "fn get_index", rewrites=FIND,
         loops=[dict(head=r"^for i_ in 0\.\.columns\.len\(\)$", spec="""
            invariant_except_break found is None, forall|j: int| 0 <= j < i_ ==> #[trigger] titles(columns@)[j] != self@
            ensures match found { None => absent(titles(columns@), self@), Some(p) => p.0 < columns@.len() && first_named(titles(columns@), self@, p.0 as int) }""", start="proof { assert(titles(columns@)[i_ as int] == columns@[i_ as int].title()); }")])
    u.text("}\nimpl ColumnIdx for String {\n    open spec fn means(&self, t: Seq<Seq<char>>, i: int) -> bool { first_named(t, self@, i) }\n    open spec fn nothing(&self, t: Seq<Seq<char>>) -> bool { absent(t, self@) }")
    u.fn(B, "impl ^impl ColumnIdx for String$", "fn get_index", rewrites=[(r"self\.as_str\(\)\.get_index\(columns\)", "<&str as ColumnIdx>::get_index(&string_deref(self), columns)", "method call by its trait; String::as_str through a stub")])
    u.text("}\nimpl<K: ColumnType> Block<K> {")
    G = (B, r"impl ^impl<K: ColumnType> Block<K>")
    u.fn(*G, "fn row_count", vis="pub", spec="requires self.wf() ensures r == self.rows_n()", rewrites=[(r"self\.columns\.first\(\)", "vfirst(&self.columns)", "slice::first")])
    u.fn(*G, "fn column_count", vis="pub", spec="ensures r == self.columns@.len()")
    u.fn(*G, "fn columns", vis="pub", spec="ensures r@ == self.columns@")
    u.fn(*G, "fn get", vis="pub", spec="requires self.wf() ensures finds(*self, row as int, col, r)",
         hints=[("start", "", "broadcast use cells_ok;")])
    u.fn(*G, "fn get_column", vis="pub", spec="ensures finds_col(*self, col, r)")
    u.text("}")
    rows(u)
    u.text("} fn main() {}")
    return u


def rows(u):
    PH = (r"\bmarker::PhantomData", "core::marker::PhantomData", "module path")
    u.item(R, "enum BlockRef")
    u.item(R, "struct Row", rewrites=[PH, K.PUBF])
    u.item(R, "struct Rows", rewrites=[PH, K.PUBF])
    u.text("""
impl<'a, K: ColumnType> BlockRef<'a, K> { pub open spec fn block(self) -> Block<K> { match self { BlockRef::Borrowed(b) => *b, BlockRef::Owned(b) => *b } } }
impl<'a, K: ColumnType> Clone for BlockRef<'a, K> {""")
    u.fn(R, "impl ^impl<'a, K: ColumnType> Clone for BlockRef<'a, K>", "fn clone", spec="ensures r.block() == self.block()", rewrites=[(r"block_ref\.clone\(\)", "Arc::clone(block_ref)", "clone of the Arc")])
    u.text("}\nimpl<'a, K: ColumnType> BlockRef<'a, K> {")
    G = (R, "impl ^impl<'a, K: ColumnType> BlockRef<'a, K>")
    u.fn(*G, "fn row_count", vis="pub", spec="requires self.block().wf() ensures r == self.block().rows_n()")
    u.fn(*G, "fn column_count", vis="pub", spec="ensures r == self.block().columns@.len()")
    u.fn(*G, "fn get", vis="pub", spec="requires self.block().wf() ensures finds(self.block(), row as int, col, r)")
    u.fn(*G, "fn get_column", vis="pub", spec="ensures finds_col(self.block(), col, r)")
    u.text("}\nimpl<'a, K: ColumnType> Row<'a, K> {")
    G = (R, "impl ^impl<'a, K: ColumnType> Row<'a, K>")
    u.fn(*G, "fn get", vis="pub", spec="requires self.block_ref.block().wf() ensures finds(self.block_ref.block(), self.row as int, col, r)")
    u.fn(*G, "fn len", vis="pub", spec="ensures r == self.block_ref.block().columns@.len()")
    u.fn(*G, "fn is_empty", vis="pub", spec="ensures r == (self.block_ref.block().columns@.len() == 0)")
    u.text("}\nimpl<K: ColumnType> Block<K> {")
    u.fn(B, r"impl ^impl<K: ColumnType> Block<K>", "fn rows", vis="pub", sig=[(r"Rows<K>", "Rows<'_, K>", "elided lifetime")], rewrites=[(r"\bPhantomData\b", "core::marker::PhantomData", "module path")], spec="ensures r.row == 0, r.block_ref.block() == *self")
    u.text("}\nimpl<'a, K: ColumnType> Rows<'a, K> {")
    u.fn(R, "impl ^impl<'a, K: ColumnType> Iterator for Rows<'a, K>", "fn next", vis="pub", sig=[(r"Self::Item", "Row<'a, K>", "associated type written out")], rewrites=[PH],
         spec="""requires old(self).block_ref.block().wf()
        ensures final(self).block_ref.block() == old(self).block_ref.block(), ({
            let n = old(self).block_ref.block().rows_n();
            if old(self).row >= n { r is None && final(self).row == old(self).row }
            else { final(self).row == old(self).row + 1 && (r matches Some(w) && w.row == old(self).row && w.block_ref.block() == old(self).block_ref.block()) }
        })""",
         hints=[("start", "", "proof { if self.block_ref.block().columns@.len() > 0 { let _c = self.block_ref.block().columns@[0]; } } let _n0 = self.block_ref.row_count();")])
    u.text("}")
