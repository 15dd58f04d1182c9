"""The Iterable implementations (P22): which column an item type is served from, and that the iterator it gets yields that column's
cells - whatever surrounds the column. Part of the iters unit (after internals)."""
import re
from . import cols as K

P = "src/types/column/iter/mod.rs"
M = "src/types/column/mod.rs"
C = "src/types/column/"

SPEC = """
// derived PartialEq of SqlType is structural equality
impl vstd::std_specs::cmp::PartialEqSpecImpl for SqlType {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &SqlType) -> bool { *self == *o }
}
impl PartialEq for SqlType { #[verifier::external_body] fn eq(&self, o: &SqlType) -> (r: bool) { unimplemented!() } }
pub open spec fn bare(t: SqlType) -> SqlType decreases t { match t { SqlType::SimpleAggregateFunction(_, i) => bare(*i), _ => t } }
pub proof fn lemma_bare(t: Tree) requires twf(t) ensures bare(ty(t)) == bare(ty(strip(t))), twf(strip(t)), !(strip(t) is Saf), bare(ty(t)) == ty(strip(t)), rows(strip(t)) == rows(t) decreases t { match t { Tree::Saf(_, i) => lemma_bare(*i), _ => {} } }
// ---- Column<Simple> ----
pub struct Column { pub data: Inner }
impl Column { pub open spec fn tree(&self) -> Tree { self.data.tree() } }
pub open spec fn asked(root: Tree, t: SqlType, p: u32, node: Tree, hashable: bool) -> bool { twf(root) && shallow(root) && at(root, node, p) && t == ty(node) && (p != 0 ==> hashable) }
// Iterable<'a, Simple>: the node of the column tree that the type and the properties stand for is ghost
pub trait Itb: Sized {
    type Iter: It;
    spec fn hashable() -> bool;                                    // the items can be the keys of a HashMap
    spec fn takes(node: Tree, top: bool) -> bool;                  // the column types that the item type is served from (top: the column itself, not a part of it)
    spec fn cells(node: Tree) -> Seq<<Self::Iter as It>::Item>;    // what the node's iterator yields
    proof fn by_type(a: Tree, b: Tree, top: bool) requires twf(a), twf(b), ty(a) == ty(b) ensures Self::takes(a, top) == Self::takes(b, top);
    proof fn counts(node: Tree, top: bool) requires twf(node), Self::takes(node, top) ensures Self::cells(node).len() == rows(node);
    fn iter_with_props(column: &Column, column_type: SqlType, props: u32, node: Ghost<Tree>) -> (r: Result<Self::Iter>) requires asked(column.tree(), column_type, props, node@, Self::hashable())
        ensures r is Ok <==> Self::takes(node@, column.tree() == node@ && props == 0), r is Ok ==> r->Ok_0.wf() && r->Ok_0.rest() == Self::cells(node@) && Self::cells(node@).len() == rows(node@);
}
// what can be a key of a HashMap (Eq + Hash): neither a HashMap nor a Decimal is
pub trait Key: Itb { proof fn is_key() ensures Self::hashable(); }
pub proof fn lemma_dates_alone(root: Tree, node: Tree, p: u32) requires at(root, node, p), !(root == node && p == 0) ensures ians(root, 0) is Nothing, ians(root, 1) is Nothing { }
// the type of a well-formed column tells what it is made of
pub proof fn lemma_kind(t: Tree) requires twf(t)
    ensures ty(t) is Nullable <==> t is Null, ty(t) is Array <==> t is Arr, ty(t) is Map <==> t is Map, ty(t) is String <==> t is Str, ty(t) is FixedString <==> t is Fixed, ty(t) is Decimal <==> t is Dec, ty(t) is LowCardinality <==> t is Lc,
        ty(t) is Date <==> t is Days, ty(t) is SimpleAggregateFunction <==> t is Saf, ty(t) is DateTime <==> t is Secs || t is Ticks || (t is Other && ty(t) == SqlType::DateTime(DateTimeType::Chrono)), t is Ticks <==> (ty(t) matches SqlType::DateTime(d) && d is DateTime64), t is Secs <==> ty(t) == SqlType::DateTime(DateTimeType::DateTime32),
        t is Lc ==> *ty(t)->LowCardinality_0 == ty(*t->Lc_0) && twf(*t->Lc_0) && lc_ok(*t->Lc_0, t->Lc_1, t->Lc_2), t is Null ==> *ty(t)->Nullable_0 == ty(*t->Null_0), t is Arr ==> *ty(t)->Array_0 == ty(*t->Arr_0), t is Map ==> *ty(t)->Map_0 == ty(*t->Map_0) && *ty(t)->Map_1 == ty(*t->Map_1),
{ match t { Tree::Num(s, e, c) => { assert(elem_of(s) is Some); }, Tree::Octets(s, b) => { assert(octets_n(s) > 0); }, Tree::Other(s, _) => {}, Tree::Secs(_, d, _) => {}, _ => {} } }
pub proof fn lemma_kinds(t: Tree) requires twf(t) ensures t is Lc ==> twf(*t->Lc_0) { lemma_kind(t); if t is Lc { lemma_kind(*t->Lc_0); } }
pub proof fn lemma_shallow(root: Tree, node: Tree) requires shallow(root), down(root, node) ensures shallow(node) decreases root { if root != node { match root { Tree::Null(i, _) => lemma_shallow(*i, node), Tree::Arr(i, _) => lemma_shallow(*i, node), Tree::Map(_, v, _) => lemma_shallow(*v, node), _ => {} } } }
pub proof fn lemma_key_shallow(root: Tree, k: nat) requires shallow(root), key_at(root, k) is Some ensures shallow(key_at(root, k)->Some_0) decreases root { match root { Tree::Null(i, _) => lemma_key_shallow(*i, k), Tree::Arr(i, _) => lemma_key_shallow(*i, k), Tree::Map(_, v, _) => if k > 0 { lemma_key_shallow(*v, (k - 1) as nat) }, _ => {} } }
pub proof fn lemma_at_shallow(root: Tree, node: Tree, p: u32) requires shallow(root), at(root, node, p) ensures lvl(ty(node)) <= 255 { if p == 0 { lemma_shallow(root, node); } else { lemma_key_shallow(root, (p / 2) as nat); lemma_shallow(key_at(root, (p / 2) as nat)->Some_0, node); } }
// the parts of a container, as nodes of the same column
pub proof fn lemma_child(root: Tree, node: Tree, c: Tree, p: u32) requires at(root, node, p), node is Null && c == *node->Null_0 || node is Arr && c == *node->Arr_0 || node is Map && c == *node->Map_1
    ensures at(root, c, p), down(node, c), !(root == c && p == 0)
{ reveal_with_fuel(down, 2); assert(lvl(ty(node)) == 1 + lvl(ty(c))); lemma_at_step(root, node, c, p); if p == 0 { lemma_down(root, node); } }
pub proof fn lemma_date_buf(t: Tree, level: u8) requires level != 1 ensures match ians(t, level) { IAns::Dates(b, _, _, _) => !(b is Nothing), IAns::Lc(_, _) => false, _ => true } decreases t { match t { Tree::Lc(i, _, _) => lemma_date_buf(*i, level), _ => {} } }
pub proof fn lemma_fixed_rows(b: nat, r: nat, n: nat) requires b == r * n ensures forall|i: int| 0 <= i < r ==> #[trigger] ((i + 1) * n) <= b && 0 <= i * n { assert forall|i: int| 0 <= i < r implies #[trigger] ((i + 1) * n) <= b && 0 <= i * n by { assert((i + 1) * n <= r * n && 0 <= i * n) by (nonlinear_arith) requires 0 <= i, i + 1 <= r, n >= 0; } }
pub proof fn lemma_mod(a: nat, w: nat) requires a % w == 0, w > 0 ensures (a / w) * w == a { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a as int, w as int); assert(w as int * (a / w) == (a / w) * w) by (nonlinear_arith); }
"""

ERR = (r"return Err\(Error::FromSql\(FromSqlError::InvalidType \{.*?\}\)\)", "return Err(bad_type())", "error value: which one, and its text, is dropped")
ERR2 = (r"return Err\(cast_datetime_error\([^;]*?\)\);", "return Err(bad_type());", "error value: which one, and its text, is dropped")
GET2 = (r"column\.get_internal\(\s*&\[&mut (\w+), &mut size as \*mut usize as \*mut \*const u8\],\s*([\w.()]+),\s*(\w+),?\s*\)\?",
        r"{ let mut o_ = Out { p: \1, n: size, nobits: NoBits::N32, slots: Ghost(2) }; LEMMA let g_ = column.get_internal(&mut o_, \2, \3); \1 = o_.p; size = o_.n; g_ }?", "the two out-pointers as the checked stand-in")
GET1 = (r"column\.get_internal\(&\[&mut (\w+)\], ([\w.()]+), (\w+)\)\?",
        r"{ let mut o_ = Out { p: \1, n: 0, nobits: NoBits::N32, slots: Ghost(1) }; LEMMA let g_ = column.get_internal(&mut o_, \2, \3); \1 = o_.p; g_ }?", "the out-pointer as the checked stand-in")
GET3 = (r"column\.get_internal\(\s*&\[\s*&mut ptr,\s*&mut size as \*mut usize as \*mut \*const u8,\s*&mut nobits as \*mut NoBits as \*mut \*const u8,?\s*\],\s*(\w+),\s*(\w+),?\s*\)\?",
        r"{ let mut o_ = Out { p: ptr, n: size, nobits, slots: Ghost(3) }; LEMMA let g_ = column.get_internal(&mut o_, \1, \2); ptr = o_.p; size = o_.n; nobits = o_.nobits; g_ }?", "the three out-pointers as the checked stand-in")
COMMON = [ERR, ERR2, (r"\bunsafe \{", "{", "unsafe block"), (r"let mut (\w+): \*const u8 = ptr::null\(\);", r"let mut \1 = AnyPtr::null();", "null pointer"), (r"let mut ptr = ptr::null\(\);", "let mut ptr = AnyPtr::null();", "null pointer"),
          (r"assert_ne!\((\w+), ptr::null\(\)\);", r"check(!\1.is_null());", "assertion that must hold"), (r"assert!\(([^;]*)\);", r"check(\1);", "assertion that must hold"),
          (r"slice::from_raw_parts\(ptr as \*const (\w+), size\)\.iter\(\)", r"ptr.nums::<\1>(size)", "the cast and the slice: what is behind the pointer decides"), (r"slice::from_raw_parts\(ptr as \*const u64, size\)", "ptr.u64s(size)", "the cast and the slice: what is behind the pointer decides"),
          (r"&\*\(inner as \*const Vec<u8>\)", "inner.vec_u8()", "the cast: what is behind the pointer decides"), (r"inner\.as_ptr\(\)", "vec_ptr(inner)", "pointer of a vector"),
          (r"&\*\(string_pool as \*const StringPool\)", "string_pool.pool()", "the cast: what is behind the pointer decides"), (r"_marker: marker::PhantomData,", "", "marker field dropped"),
          (r"let end = ptr\.add\(size\);\s*\(ptr, end\)", "let ptr = ptr.bytes(); let end = ptr.add(size); (ptr, end)", "the bytes behind the pointer"),
          (r"StringInnerIterator::FixedString\(buffer, str_len\)", "StringInnerIterator::FixedString(buffer.bytes(), str_len)", "the bytes behind the pointer"),
          (r"LowCardinalityInternals::default\(\)", "LowCardinalityInternals::default_()", "Default"), (r"DateTimeInternals::default\(\)", "DateTimeInternals::default_()", "Default"),
          (r"column\.get_internals\(&mut (dt_inter), (\w+), (\w+)\)", r"{ let mut t_ = Internals::dates(\1); let g_ = column.get_internals(&mut t_, \2, \3); \1 = t_.d; g_ }", "the struct handed over by address, as the checked stand-in"),
          (r"column\.get_internals\(&mut (lc_inter|internals), (\w+), (\w+)\)", r"{ let mut t_ = Internals::low(\1); let g_ = column.get_internals(&mut t_, \2, \3); \1 = t_.l; g_ }", "the struct handed over by address, as the checked stand-in"),
          (r"\(\*(\w+)\.index\)\.len\(\)", r"\1.index.len()", "pointer read through the checked stand-in"), (r"dt_inter\.begin as \*const (u16|u32|i64)", r"dt_inter.begin.\1s()", "the cast: what is behind the pointer decides"),
          (r"internals\s*\.accessor\s*\.ok_or\(([^;]*)\)\?;", r"match internals.accessor { Some(a_) => a_, None => return Err(bad_type()) };", "ok_or(..)? as a match"),
          (r"let SqlType::Decimal\(precision, scale\) = column_type else \{(.*?)\n        \};", r"let (precision, scale) = match column_type { SqlType::Decimal(p_, s_) => (p_, s_), _ => {\1} };", "let-else as a match"),
          (r"NoBits::N32 => \(ptr as \*const u(\d+)\)\.add\(size\) as \*const u8", r"NoBits::N32 => ptr.add_items(size, \1 / 8)", "typed pointer arithmetic"), (r"NoBits::N64 => \(ptr as \*const u(\d+)\)\.add\(size\) as \*const u8", r"NoBits::N64 => ptr.add_items(size, \1 / 8)", "typed pointer arithmetic"),
          (r"\(ptr, size, nobits\)\n", "(ptr.cells_raw(nobits), size, nobits)\n", "the cells behind the pointer")]
SIG = [(r"column: &'a Column<Simple>", "column: &Column", "Column<Simple>: the field used"), (r"\b_props: u32", "props: u32", "parameter name"), (r"props: u32\b,?\s*\)", "props: u32, node: Ghost<Tree>)", "ghost parameter: the node asked for"), (r"Result<Self::Iter>", "Result<Self::Iter>", "")][:3]


def getters(lemma):
    return [(a, b.replace("LEMMA", lemma), c) for a, b, c in (GET2, GET1, GET3)]


def ask(level, slots, props="props"):
    return f"proof {{ theorem_answer(column.tree(), node@, {level} as u8, {slots}, {props}); }}"


START = "let ghost root_ = column.tree(); proof { reveal_with_fuel(ians, 2); lemma_at_wf(root_, node@, props); lemma_at_shallow(root_, node@, props); lemma_bare(node@); lemma_kind(node@); if node@ is Lc { lemma_kind(*node@->Lc_0); } if !(root_ == node@ && props == 0) { lemma_dates_alone(root_, node@, props); } }"


def impl(u, who, decl, it, hashable, takes, cells, by, hdr, lemma, rewrites=(), hints=(), path=P, extra=""):
    u.text(f"""impl{decl} Itb for {who} {{ type Iter = {it};
    open spec fn hashable() -> bool {{ {hashable} }}
    open spec fn takes(node: Tree, top: bool) -> bool {{ {takes} }}
    open spec fn cells(node: Tree) -> Seq<<Self::Iter as It>::Item> {{ {cells} }}
    proof fn by_type(a: Tree, b: Tree, top: bool) {{ {by} }}
    proof fn counts(node: Tree, top: bool) {{ lemma_bare(node); lemma_kind(node); if node is Lc {{ lemma_kind(*node->Lc_0); }} }}""")
    route = (path,) + (hdr if isinstance(hdr, tuple) else (hdr,))
    u.fn(*route, "fn iter_with_props", sig=SIG, rewrites=list(rewrites) + COMMON + getters(lemma), hints=[("start", "", START)] + list(hints))
    u.text("}" + extra)
    if hashable != "false":
        u.text(f"impl{decl.replace('Itb', 'Key')} Key for {who} {{ proof fn is_key() {{ {'T::is_key();' if decl else ''} }} }}")


def build(u):
    u.text(SPEC)
    u.text("impl Column {")
    u.fn(M, r"impl ^impl<K: ColumnType> Column<K>$", "fn sql_type", vis="pub", spec="ensures r == ty(self.tree())")
    G = [(r"unsafe fn", "fn", "unsafe fn: its safety condition is the precondition"), (r"pointers: &\[\*mut \*const u8\]", "pointers: &mut Out", "pointer slots as the checked stand-in"), (r"<D>", "", "the struct's type"), (r"data: &mut D", "data: &mut Internals", "the struct as the checked stand-in")]
    u.fn(M, r"impl ^impl<K: ColumnType> Column<K>$", "fn get_internal", vis="pub", sig=G, spec="requires askable(self.tree(), level, props, old(pointers).slots@), shallow(self.tree()), twf(self.tree()) ensures answered(self.tree(), level, props, *old(pointers), *final(pointers), r is Ok)")
    u.fn(M, r"impl ^impl<K: ColumnType> Column<K>$", "fn get_internals", vis="pub", sig=G, rewrites=[(r"data as \*mut D as \*mut \(\)", "data", "the cast: every write demands that the struct has the type")], spec="requires ians_fit(self.tree(), level, *old(data)) ensures iansd(self.tree(), level, *old(data), *final(data), r is Ok)")
    u.text("}")
    u.fn(P, "fn check_type", vis="pub", rewrites=[(r"if let SqlType::SimpleAggregateFunction\(_, nested\) = src \{\s*(.*?)\s*\} else \{\s*(.*?)\s*\}", r"match src { SqlType::SimpleAggregateFunction(_, nested) => { \1 }, _ => { *(\2) } }", "if-let as a match")][:0],
         spec="ensures r == (bare(*src) == *dst) decreases src")
    # numbers and bool
    for t, k, e in [("u8", "UInt8", "U8"), ("u16", "UInt16", "U16"), ("u32", "UInt32", "U32"), ("u64", "UInt64", "U64"), ("i8", "Int8", "I8"), ("i16", "Int16", "I16"), ("i32", "Int32", "I32"), ("i64", "Int64", "I64"),
                    ("f32", "Float32", "F32"), ("f64", "Float64", "F64"), ("i128", "Int128", "I128"), ("u128", "UInt128", "U128"), ("bool", "Bool", "Bool")]:
        u.text(f"impl NumItem for {t} {{ open spec fn elem() -> Elem {{ Elem::{e} }} open spec fn vt() -> SqlType {{ SqlType::{k} }} }}")
        hdr = (f"macro_expand simple_num_iterable t={t},k={k}", rf"impl ^impl<'a> Iterable<'a, Simple> for {t}$") if t != "bool" else r"impl ^impl<'a> Iterable<'a, Simple> for bool$"
        impl(u, t, "", f"NumIter<{t}>", "true", f"strip(node) is Num && ty(strip(node)) == SqlType::{k}", "strip(node)->Num_2", "lemma_bare(a); lemma_bare(b);", hdr, ask(0, 2))
    # addresses and UUIDs
    for t, k, w, at in (("Ipv4Addr", "Ipv4", 4, "octets(rev(bytes_at(strip(node)->Octets_1, i * 4, 4)))"), ("Ipv6Addr", "Ipv6", 16, "octets(bytes_at(strip(node)->Octets_1, i * 16, 16))"), ("uuid::Uuid", "Uuid", 16, "octets(uuid_order(bytes_at(strip(node)->Octets_1, i * 16, 16)))")):
        n = {"uuid::Uuid": "Uuid"}.get(t, t)
        u.text(f"pub struct {n}Item {{}}   // {t} as an item type (the octet types are one type here)")
        impl(u, f"{n}Item", "", f"{n.replace('Addr', '')}Iterator", "true", f"strip(node) is Octets && ty(strip(node)) == SqlType::{k}", f"Seq::new(rows(node), |i: int| {at})", "lemma_bare(a); lemma_bare(b);",
             rf"impl ^impl<'a> Iterable<'a, Simple> for {t}$", ask(0, 1), hints=[("before", r"Ok\(\w+Iterator \{", f"proof {{ lemma_mod(inner@.len(), {w}); }} let r_ = "), ("end", "", "; proof { assert(r_->Ok_0.rest() =~= Self::cells(node@)); } r_")])
    # decimals
    impl(u, "Decimal", "", "DecimalIterator", "false", "node is Dec", "Seq::new(rows(node), |i: int| Decimal { underlying: node->Dec_3[i]->Num_0 as i64, nobits: node->Dec_2, precision: node->Dec_0, scale: node->Dec_1 })", "",
         r"impl ^impl<'a> Iterable<'a, Simple> for Decimal$", ask(0, 3, "0"), hints=[])
    # byte strings
    STR = "node is Str || node is Fixed || (node is Lc && (*node->Lc_0 is Str || *node->Lc_0 is Fixed) && top)"
    u.text("pub struct BytesItem {}   // &[u8] as an item type")
    impl(u, "BytesItem", "", "StringIterator", "true", STR, "match node { Tree::Lc(i, ix, _) => Seq::new(rows(node), |j: int| strings_of(*i)[ix.keys()[j] as int]), _ => strings_of(node) }",
         "lemma_kind(a); lemma_kind(b); if a is Lc { lemma_kind(*a->Lc_0); } if b is Lc { lemma_kind(*b->Lc_0); }", r"impl ^impl<'a> Iterable<'a, Simple> for &\[u8\]$", ask(0, 2), rewrites=[(r"LowCardinality\(&SqlType::", "LowCardinality(SqlType::", "reference pattern as a default binding")],
         hints=[("before", r"Ok\(StringIterator \{", "proof { if let Tree::Fixed(n_, b_, k_) = node@ { lemma_fixed_rows(b_.len(), k_, n_ as nat); } if node@ is Lc { if let Tree::Fixed(n_, b_, k_) = *node@->Lc_0 { lemma_fixed_rows(b_.len(), k_, n_ as nat); } } } let r_ = "), ("end", "", "; proof { assert forall|i: int| r_->Ok_0.index <= i < r_->Ok_0.size implies #[trigger] r_->Ok_0.fine(i) by { } assert(r_->Ok_0.rest() =~= Self::cells(node@)); } r_")])
    # dates and times
    u.text("""pub open spec fn date_node(n: Tree) -> Tree { match n { Tree::Lc(i, _, _) => *i, _ => n } }
pub open spec fn row(n: Tree, j: int) -> int { match n { Tree::Lc(_, ix, _) => ix.keys()[j] as int, _ => j } }
pub open spec fn t_secs(n: Tree, i: int) -> int { match n { Tree::Secs(c, _, _) => c[i] as int, Tree::Ticks(c, p, _) => tick_secs(c[i] as int, p as nat), _ => 0 } }
pub open spec fn t_nanos(n: Tree, i: int) -> int { match n { Tree::Ticks(c, p, _) => tick_nanos(c[i] as int, p as nat), _ => 0 } }
pub open spec fn t_tz(n: Tree) -> Tz { match n { Tree::Secs(_, _, tz) => tz, Tree::Ticks(_, _, tz) => tz, _ => arbitrary() } }""")
    u.fn(P, "fn date_iter", vis="pub", sig=SIG[:0] + [(r"column: &Column<Simple>", "column: &Column", "Column<Simple>: the field used")], rewrites=[(r"column\.get_internals\(&mut internals, (\w+), (\w+)\)", r"{ let mut t_ = Internals::dates(internals); let g_ = column.get_internals(&mut t_, \1, \2); internals = t_.d; g_ }", "the struct handed over by address, as the checked stand-in"),
         (r"assert_ne!\(internals\.begin, ptr::null\(\)\);", "check(!internals.begin.is_null());", "assertion that must hold")] + COMMON,
         spec="ensures match ians(column.tree(), 0) { IAns::Dates(b, n, tz, p) => r is Ok && r->Ok_0.begin.buf() == b && r->Ok_0.len == n && r->Ok_0.tz == tz && r->Ok_0.precision == p, _ => r is Err }", hints=[("start", "", "proof { lemma_date_buf(column.tree(), 0); }")])
    OKD = [("before", r"Ok\(\w+Iterator \{", "let r_ = "), ("end", "", "; proof { assert(r_->Ok_0.rest() =~= Self::cells(node@)); } r_")]
    for t, item, it, takes, cell in (("NaiveDate", "DateItem_", "DateIterator", "date_node(node) is Days", "NaiveDate { ce: (719_163 + date_node(node)->Days_0[row(node, j)]) as i32 }"),
                        ("DateTime<Tz>", "DateTimeItem", "DateTimeIterator", "(date_node(node) is Secs || node is Ticks)", "AppDateTime { secs: t_secs(date_node(node), row(node, j)) as i64, nanos: t_nanos(date_node(node), row(node, j)) as u32, tz: t_tz(date_node(node)) }"),
                        ("NaiveDateTime", "NaiveDateTimeItem", "NativeDateTimeIterator", "(date_node(node) is Secs || node is Ticks)", "NaiveDateTime { secs: t_secs(date_node(node), row(node, j)) as i64, nanos: t_nanos(date_node(node), row(node, j)) as u32 }")):
        u.text(f"pub struct {item} {{}}   // {t} as an item type")
        impl(u, item, "", it, "true", f"top && {takes}", f"Seq::new(rows(node), |j: int| {cell})", "lemma_kind(a); lemma_kind(b); if a is Lc { lemma_kind(*a->Lc_0); } if b is Lc { lemma_kind(*b->Lc_0); }", r"impl ^impl<'a> Iterable<'a, Simple> for %s$" % re.escape(t), "", hints=OKD)
    # containers
    u.text("#[verifier::external_body] pub fn same_sql_type(t: &SqlType) -> (r: SqlType) ensures r == *t { unimplemented!() }")
    CL = (r"(\w+_type)\.clone\(\)", r"same_sql_type(\1)", "derived Clone of SqlType")
    NODE = lambda part, pr: f"proof {{ lemma_at_step(root_, node@, {part}, props); lemma_down(node@, {part}); }}"
    impl(u, "Option<T>", "<T: Itb>", "NullableIterator<T::Iter>", "T::hashable()", "node is Null && T::takes(*node->Null_0, false)", "Seq::new(rows(node), |i: int| if node->Null_1[i] != 0 { None } else { Some(T::cells(*node->Null_0)[i]) })",
         "lemma_kind(a); lemma_kind(b); if a is Null && b is Null { T::by_type(*a->Null_0, *b->Null_0, false); }", r"impl ^impl<'a, T> Iterable<'a, Simple> for Option<T> where", ask("column_type.level()", 2).replace("column_type.level()", "lvl(column_type)"),
         rewrites=[CL, (r"T::iter_with_props\(([^;]*?), (\w+)\)\?", r"{ let ghost in_ = *node@->Null_0; proof { lemma_child(root_, node@, in_, props); } T::iter_with_props(\1, \2, Ghost(in_))? }", "ghost argument")],
         hints=[("before", r"Ok\(\w+Iterator \{", "let r_ = "), ("end", "", "; proof { assert(r_->Ok_0.rest() =~= Self::cells(node@)); } r_")])
    impl(u, "Vec<T>", "<T: Itb>", "ArrayIterator<T::Iter>", "T::hashable()", "node is Arr && T::takes(*node->Arr_0, false)", "Seq::new(rows(node), |i: int| VecOf { items: Ghost(T::cells(*node->Arr_0).subrange(start_of(node->Arr_1, i), start_of(node->Arr_1, i + 1))) })",
         "lemma_kind(a); lemma_kind(b); if a is Arr && b is Arr { T::by_type(*a->Arr_0, *b->Arr_0, false); }", r"impl ^impl<'a, T> Iterable<'a, Simple> for Vec<T> where", ask("lvl(column_type)", 2),
         rewrites=[CL, (r"T::iter_with_props\(([^;]*?), (\w+)\)\?", r"{ let ghost in_ = *node@->Arr_0; proof { lemma_child(root_, node@, in_, props); } T::iter_with_props(\1, \2, Ghost(in_))? }", "ghost argument")],
         hints=[("before", r"Ok\(\w+Iterator \{", "let r_ = "), ("end", "", "; proof { assert(node@->Arr_1.subrange(0, node@->Arr_1.len() as int) =~= node@->Arr_1); assert(r_->Ok_0.rest() =~= Self::cells(node@)); } r_")])
    u.text("pub struct MapItem<K, V> { pub k: Option<K>, pub v: Option<V> }   // HashMap<K, V> as an item type")
    impl(u, "MapItem<K, V>", "<K: Key, V: Itb>", "MapIterator<K::Iter, V::Iter>", "false", "node is Map && K::takes(*node->Map_0, false) && V::takes(*node->Map_1, false)",
         "Seq::new(rows(node), |i: int| MapOf { pairs: Ghost(zip_of(K::cells(*node->Map_0), V::cells(*node->Map_1)).subrange(start_of(node->Map_2, i), start_of(node->Map_2, i + 1))) })",
         "lemma_kind(a); lemma_kind(b); if a is Map && b is Map { K::by_type(*a->Map_0, *b->Map_0, false); V::by_type(*a->Map_1, *b->Map_1, false); }", r"impl ^impl<'a, K, V> Iterable<'a, Simple> for HashMap<K, V> where", ask("lvl(column_type)", 2),
         rewrites=[CL, (r"(let k_level = [^;]*;)", r"proof { lemma_down(root_, node@); lemma_key_level(root_, node@); lemma_mlvl(ty(root_)); assert(lvl(ty(root_)) <= 255); } \1", "proof about the key level"), (r"let k_props = ([^;]*);", r"let k_props = \1; proof { assert(k_level < 256 ==> (1u32 | (k_level << 1)) == 1 + 2 * k_level) by (bit_vector); }", "proof about the key level"),
                   (r"K::iter_with_props\(([^;]*?), (\w+)\)\?", r"{ let ghost in_ = *node@->Map_0; proof { K::is_key(); } K::iter_with_props(\1, \2, Ghost(in_))? }", "ghost argument"),
                   (r"V::iter_with_props\(([^;]*?), (\w+)\)\?", r"{ let ghost in_ = *node@->Map_1; proof { lemma_child(root_, node@, in_, 0); } V::iter_with_props(\1, \2, Ghost(in_))? }", "ghost argument")],
         hints=[("before", r"Ok\(\w+Iterator \{", "let r_ = "), ("end", "", "; proof { assert(node@->Map_2.subrange(0, node@->Map_2.len() as int) =~= node@->Map_2); assert(r_->Ok_0.rest() =~= Self::cells(node@)); } r_")])
    chunks(u)


def chunks(u):
    """blocks glued together: Column<Complex>"""
    u.text("""
#[verifier::external_body] pub fn arc_clone(a: &Inner) -> (r: Inner) ensures r.tree() == a.tree() { unimplemented!() }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct ChunksPtr { p: usize }
impl ChunksPtr { pub uninterp spec fn v(&self) -> Option<Seq<Inner>>; #[verifier::external_body] pub fn null() -> (r: ChunksPtr) ensures r.v() is None { unimplemented!() }
    #[verifier::external_body] pub fn get(self) -> (r: &'static Vec<Inner>) requires self.v() is Some ensures r@ == self.v()->Some_0 { unimplemented!() } }
#[verifier::external_body] pub fn chunks_ptr(v: &Vec<Inner>) -> (r: ChunksPtr) ensures r.v() == Some(v@) { unimplemented!() }
pub fn must<X>(r: Result<X>) -> (x: X) requires r is Ok ensures x == r->Ok_0 { match r { Ok(x) => x, Err(_) => must_not() } }
#[verifier::external_body] pub fn must_not<X>() -> X requires false { unimplemented!() }
pub struct OutC { pub p: ChunksPtr }
impl OutC { pub fn set_p(&mut self, x: ChunksPtr) ensures final(self).p == x { self.p = x; } }
pub struct ConcatColumnData { pub data: Vec<Inner>, pub index: Vec<usize> }
pub struct CColumn { pub data: ConcatColumnData }       // Column<Complex>: a concatenation (Block::concat is the only maker)
""")
    ASKC = "ensures r is Ok <==> level == 0xff, r is Ok ==> final(pointers).p.v() == Some({}.data@)"
    GC = [(r"unsafe fn", "fn", "unsafe fn: its safety condition is the precondition"), (r"pointers: &\[\*mut \*const u8\]", "pointers: &mut OutC", "pointer slot as a stand-in for this answer"), (r"_props: u32", "props: u32", "parameter name")]
    u.text("impl ConcatColumnData {")
    u.fn(C + "concat.rs", r"impl ^impl ColumnData for ConcatColumnData$", "fn get_internal", vis="pub", sig=GC, rewrites=[(r"\*pointers\[0\] = &self\.data as \*const Vec<ArcColumnData> as \*mut u8;", "pointers.set_p(chunks_ptr(&self.data));", "slot 0 through the stand-in"), (r"Err\(Error::FromSql\(FromSqlError::UnsupportedOperation\)\)", "Err(bad_type())", "error value")], spec=ASKC.format("self"))
    u.text("} impl CColumn {")
    u.fn(M, r"impl ^impl<K: ColumnType> Column<K>$", "fn get_internal", vis="pub", sig=GC, spec=ASKC.format("self.data"))
    u.text("}")
    u.fn(P, "trait Iterable", "fn iter", rename="iter_of", vis="pub", sig=SIG[:0] + [(r"fn iter\b|fn iter_of\b", "fn iter_of<T: Itb>", "trait default method as a function of the implementing type"), (r"column: &'a Column<K>", "column: &Column", "Column<Simple>: the field used"), (r"Self::Iter", "T::Iter", "")],
         rewrites=[(r"Self::iter_with_props\((.*?)\)", r"T::iter_with_props(\1, Ghost(column.tree()))", "ghost argument")],
         spec="requires twf(column.tree()), shallow(column.tree()), column_type == ty(column.tree()) ensures r is Ok <==> T::takes(column.tree(), true), r is Ok ==> r->Ok_0.wf() && r->Ok_0.rest() == T::cells(column.tree())")
    u.item(P, "struct ComplexIterator", rewrites=[K.PUBF, (r"<'a, T>\s*where\s*T: Iterable<'a, Simple>,", "<T: Itb>", "the trait as its contract"), (r"&'a Vec<ArcColumnData>", "&'static Vec<Inner>", "lifetime; column pointer as a stand-in"), (r"<T as Iterable<'a, Simple>>::Iter", "T::Iter", "the trait as its contract"), (r"(?:pub )?_marker: marker::PhantomData<T>,", "", "marker field dropped")])
    u.text("""
pub open spec fn chunk_ok<T: Itb>(c: Inner, t: SqlType) -> bool { twf(c.tree()) && shallow(c.tree()) && ty(c.tree()) == t && T::takes(c.tree(), true) }
pub open spec fn glued<T: Itb>(s: Seq<Inner>, i: int) -> Seq<<T::Iter as It>::Item> decreases s.len() - i { if i < 0 || i >= s.len() { Seq::empty() } else { T::cells(s[i].tree()) + glued::<T>(s, i + 1) } }
pub open spec fn all_rows(s: Seq<Inner>, i: int) -> nat decreases s.len() - i { if i < 0 || i >= s.len() { 0 } else { rows(s[i].tree()) + all_rows(s, i + 1) } }
// the items of a concatenation are as many as the rows of its parts
pub proof fn lemma_flat<T: Itb>(s: Seq<Inner>, i: int, t: SqlType) requires 0 <= i, forall|j: int| 0 <= j < s.len() ==> chunk_ok::<T>(#[trigger] s[j], t) ensures glued::<T>(s, i).len() == all_rows(s, i) decreases s.len() - i
{ if i < s.len() { assert(chunk_ok::<T>(s[i], t)); T::counts(s[i].tree(), true); lemma_flat::<T>(s, i + 1, t); } }
impl<T: Itb> ComplexIterator<T> {
    pub open spec fn now(&self) -> Seq<<T::Iter as It>::Item> { match self.current { Some(c) => c.rest(), None => Seq::empty() } }
    pub open spec fn items(&self) -> Seq<<T::Iter as It>::Item> { self.now() + glued::<T>(self.data@, self.current_index as int) }
    pub open spec fn ok(&self) -> bool { self.current_index <= self.data@.len() && (forall|j: int| 0 <= j < self.data@.len() ==> chunk_ok::<T>(#[trigger] self.data@[j], self.column_type)) && (self.current is Some ==> self.current->Some_0.wf()) }
""")
    COL = [(r"let column: Column<Simple> = Column \{\s*name: String::new\(\),\s*data: ([^;]*?)\.clone\(\),\s*_marker: marker::PhantomData,\s*\};", r"let column: Column = Column { data: arc_clone(&\1) };", "Column<Simple> over the same Arc (its name and marker are not used)"),
           (r"\bunsafe \{", "{", "unsafe block"), (r"mem::transmute\(&column\)", "&column", "lifetime-extending transmute (the Arc in `data` keeps the memory)"), (r"self\.column_type\.clone\(\)", "same_sql_type(&self.column_type)", "derived Clone of SqlType"), (r"column_type\.clone\(\)", "same_sql_type(&column_type)", "derived Clone of SqlType")]
    u.fn(P, r"impl ^impl<'a, T> Iterator for ComplexIterator<'a, T> where", "fn next", rename="next_", vis="pub", sig=[(r"Option<Self::Item>", "Option<<T::Iter as It>::Item>", "associated type written out")],
         rewrites=COL + [(r"let iter =\s*\{ T::iter\((.*?)\) \}\.unwrap\(\);", r"proof { assert(chunk_ok::<T>(self.data@[self.current_index as int], self.column_type)); } let iter = must(iter_of::<T>(\1));", "unwrap: must be Ok"), (r"self\.next\(\)", "self.next_()", "name"),
                         (r"match self\.current \{\s*None => None,\s*Some\(ref mut iter\) => iter\.next\(\),\s*\}", "match &mut self.current { None => None, Some(iter) => iter.next() }", "ref mut pattern as a match on the borrowed option")],
         loops=[dict(head=r"loop", spec="invariant self.ok(), self.current is None, self.data == old(self).data, self.column_type == old(self).column_type, old(self).current is None, self.current_index >= old(self).current_index, old(self).ok(), glued::<T>(self.data@, self.current_index as int) =~= glued::<T>(self.data@, old(self).current_index as int) ensures self.current_index < self.data@.len() decreases self.data@.len() - self.current_index",
                     start="proof { if self.current_index < self.data@.len() { let j_ = self.current_index as int; assert(chunk_ok::<T>(self.data@[j_], self.column_type)); T::counts(self.data@[j_].tree(), true); assert(glued::<T>(self.data@, j_) == T::cells(self.data@[j_].tree()) + glued::<T>(self.data@, j_ + 1)); } else { assert(glued::<T>(self.data@, self.current_index as int) =~= Seq::empty()); assert(self.items() =~= Seq::empty()); } }")],
         hints=[("start", "", "proof { if self.current is None && self.current_index == self.data@.len() { assert(self.items() =~= Seq::empty()); } }"),
                ("after", r"self\.current_index \+= 1;\s*\}\s*(?=let ret)", "") if False else ("before", r"let ret = ", "let ghost s1_ = *self; proof { if old(self).current is None { let j_ = s1_.current_index as int - 1; assert(glued::<T>(self.data@, j_) == T::cells(self.data@[j_].tree()) + glued::<T>(self.data@, j_ + 1)); } assert(s1_.items() =~= old(self).items()); }"),
                ("before", r"match ret \{", "proof { assert(self.data == s1_.data && self.current_index == s1_.current_index); let f_ = glued::<T>(self.data@, self.current_index as int); if ret is None { assert(s1_.now() =~= Seq::empty()); assert(s1_.items() =~= f_); } else { assert(self.now() =~= s1_.now().skip(1)); assert(self.items() =~= s1_.items().skip(1)); } }")],
         spec="requires old(self).ok() ensures final(self).ok(), taken(old(self).items(), 0, r, final(self).items()) decreases 2 * (old(self).data@.len() - old(self).current_index) + (if old(self).current is Some { 1int } else { 0int })")
    u.text("}\nimpl<T: Itb> It for ComplexIterator<T> { type Item = <T::Iter as It>::Item; open spec fn wf(&self) -> bool { self.ok() } open spec fn rest(&self) -> Seq<<T::Iter as It>::Item> { self.items() }\n fn next(&mut self) -> (r: Option<<T::Iter as It>::Item>) { self.next_() } }")
    u.fn(P, r"impl ^impl<'a, T> Iterable<'a, Complex> for T where", "fn iter_with_props", rename="complex_iter_with_props", vis="pub",
         sig=[(r"fn (complex_)?iter_with_props", "fn complex_iter_with_props<T: Itb>", "blanket implementation as a function of the item type"), (r"column: &Column<Complex>", "column: &CColumn", "Column<Complex>: the field used"), (r"Result<Self::Iter>", "Result<ComplexIterator<T>>", "associated type written out")],
         rewrites=COL + [(r"let mut data: \*const Vec<ArcColumnData> = ptr::null\(\);", "let mut data = ChunksPtr::null();", "null pointer"), (r"column\.get_internal\(\s*&\[&mut data as \*mut \*const Vec<ArcColumnData> as \*mut \*const u8\],\s*(\w+),\s*props,\s*\)\?", r"{ let mut o_ = OutC { p: data }; let g_ = column.get_internal(&mut o_, \1, props); data = o_.p; g_ }?", "the out-pointer as the stand-in"),
                         (r"&\*data\b", "data.get()", "dereference through the stand-in"), (r"&Vec<ArcColumnData>", "&'static Vec<Inner>", "column pointer as a stand-in"), (r"<T as Iterable<'a, Simple>>::iter\(", "iter_of::<T>(", "the trait as its contract"), (r"_marker: marker::PhantomData,", "", "marker field dropped"), (r"data\.first\(\)", "first_of(data)", "slice::first")],
         hints=[("before", r"Ok\(ComplexIterator \{", "proof { assert forall|j: int| 0 <= j < data@.len() implies chunk_ok::<T>(#[trigger] data@[j], column_type) by { T::by_type(data@[0].tree(), data@[j].tree(), true); } } let r_ = "), ("end", "", "; proof { assert(r_->Ok_0.items() =~= glued::<T>(column.data.data@, 0)); } r_")],
         spec="""requires forall|j: int| 0 <= j < column.data.data@.len() ==> twf(#[trigger] column.data.data@[j].tree()) && shallow(column.data.data@[j].tree()) && ty(column.data.data@[j].tree()) == column_type
    ensures r is Ok <==> (column.data.data@.len() > 0 ==> T::takes(column.data.data@[0].tree(), true)), r is Ok ==> r->Ok_0.ok() && r->Ok_0.items() == glued::<T>(column.data.data@, 0)""")
    u.text("#[verifier::external_body] pub fn first_of(v: &'static Vec<Inner>) -> (r: Option<&'static Inner>) ensures r is None <==> v@.len() == 0, r is Some ==> *r->Some_0 == v@[0] { unimplemented!() }")
