"""Addresses, ids and enums (P16)."""
from . import cols as K, nullable as NU, numeric as N

IP = "src/types/column/ip.rs"
EN = "src/types/column/enums.rs"
V = "src/types/value.rs"
PH = (r"(?<!::)\bPhantomData\b", "core::marker::PhantomData", "module path")

SPEC = """
#[verifier::external_body] pub fn never() -> ! requires false { unimplemented!() }
#[verifier::external_body] pub fn extend_arr<const N: usize>(v: &mut Vec<u8>, a: &[u8; N]) ensures final(v)@ == old(v)@ + a@ { v.extend(a) }
#[verifier::external_body] pub fn copy_arr<const N: usize>(v: &mut [u8; N], s: &[u8]) requires s@.len() == N ensures final(v)@ == s@ { v.copy_from_slice(s) }
#[verifier::external_body] pub fn rev4(b: &mut [u8; 4]) ensures final(b)@ == old(b)@.reverse() { b.reverse() }
#[verifier::external_body] pub fn rev16(b: &mut [u8; 16], from: usize, to: usize) requires from <= to <= 16 ensures final(b)@ == old(b)@.take(from as int) + old(b)@.subrange(from as int, to as int).reverse() + old(b)@.skip(to as int) { b[from..to].reverse() }
#[derive(Clone, Copy)] pub struct Ipv4Addr { pub o: [u8; 4] }
#[derive(Clone, Copy)] pub struct Ipv6Addr { pub o: [u8; 16] }
impl Ipv4Addr { #[verifier::external_body] pub fn octets(&self) -> (r: [u8; 4]) ensures r == self.o { unimplemented!() } }
impl Ipv6Addr { #[verifier::external_body] pub fn octets(&self) -> (r: [u8; 16]) ensures r == self.o { unimplemented!() } }
pub mod uuid { use super::*; verus! {
    #[derive(Clone, Copy)] pub struct Uuid { pub o: [u8; 16] }
    impl Uuid { #[verifier::external_body] pub fn as_bytes(&self) -> (r: &[u8; 16]) ensures *r == self.o { unimplemented!() } }
} }
pub trait Octets { spec fn octs(self) -> Seq<u8>; }
impl Octets for Ipv4Addr { open spec fn octs(self) -> Seq<u8> { self.o@ } }
impl Octets for Ipv6Addr { open spec fn octs(self) -> Seq<u8> { self.o@ } }
impl Octets for uuid::Uuid { open spec fn octs(self) -> Seq<u8> { self.o@ } }
pub open spec fn addr_type(t: SqlType) -> bool { t is Ipv4 || t is Ipv6 || t is Uuid }
pub open spec fn addr_w(t: SqlType) -> nat { if t is Ipv4 { 4 } else { 16 } }
pub open spec fn addr_cells(b: Seq<u8>, w: nat) -> Seq<SVal> { Seq::new(b.len() / w, |i: int| SVal::Addr(b.subrange(i * w, i * w + w))) }
pub open spec fn addr_wf(b: Seq<u8>, w: nat) -> bool { w > 0 && b.len() == (b.len() / w) * w }
// converting to the byte order of the server and back is the identity: distinct addresses stay distinct
pub proof fn theorem_addr(t: SqlType, b: Seq<u8>) requires addr_type(t), b.len() == addr_w(t) ensures addr_bytes(t, addr_bytes(t, b)) == b, addr_bytes(t, b).len() == b.len()
{
    assert(b.reverse().reverse() =~= b);
    let h = b.take(8).reverse(); let l = b.skip(8).reverse();
    if t is Uuid { assert((h + l).take(8) =~= h); assert((h + l).skip(8) =~= l); assert(h.reverse() + l.reverse() =~= b); }
}
pub proof fn lemma_uuid(b: Seq<u8>) requires b.len() == 16 ensures ({ let m = b.take(0) + b.subrange(0, 8).reverse() + b.skip(8); m.take(8) + m.subrange(8, 16).reverse() + m.skip(16) == addr_bytes(SqlType::Uuid, b) })
{ let m = b.take(0) + b.subrange(0, 8).reverse() + b.skip(8); assert(m.take(8) + m.subrange(8, 16).reverse() + m.skip(16) =~= addr_bytes(SqlType::Uuid, b)); }
pub proof fn lemma_mul(a: int, b: int, w: int) requires 0 <= a <= b, w >= 0 ensures 0 <= a * w <= b * w { assert(a * w <= b * w) by (nonlinear_arith) requires a <= b, w >= 0; assert(0 <= a * w) by (nonlinear_arith) requires 0 <= a, w >= 0; }
pub proof fn lemma_div(n: int, w: int) requires n >= 0, w > 0 ensures (n * w) / w == n, n * w + w == (n + 1) * w, (n * w + w) / w == n + 1
{ assert((n * w) / w == n) by (nonlinear_arith) requires w > 0; assert(n * w + w == (n + 1) * w) by (nonlinear_arith); assert(((n + 1) * w) / w == n + 1) by (nonlinear_arith) requires w > 0; }
pub proof fn lemma_addr_cat(buf: Seq<u8>, t: SqlType, a: int, b: int)
    requires addr_type(t), addr_wf(buf, addr_w(t)), 0 <= a <= b <= buf.len() / addr_w(t),
    ensures 0 <= a * addr_w(t) <= b * addr_w(t) <= buf.len(), all_ok(t, addr_cells(buf, addr_w(t)).subrange(a, b)),
        cat(t, addr_cells(buf, addr_w(t)).subrange(a, b)) == buf.subrange(a * addr_w(t), b * addr_w(t))
    decreases b - a
{
    let w = addr_w(t) as int; let n = (buf.len() / addr_w(t)) as int; let cs = addr_cells(buf, addr_w(t));
    lemma_mul(a, b, w); lemma_mul(b, n, w);
    if a < b {
        lemma_addr_cat(buf, t, a, b - 1);
        lemma_div(b - 1, w); lemma_mul(a, b - 1, w);
        assert(cs.subrange(a, b).drop_last() =~= cs.subrange(a, b - 1));
        assert(buf.subrange(a * w, b * w) =~= buf.subrange(a * w, (b - 1) * w) + buf.subrange((b - 1) * w, (b - 1) * w + w));
        assert forall|i: int| 0 <= i < b - a implies cell_ok(t, #[trigger] cs.subrange(a, b)[i]) by { if i < b - a - 1 { assert(cs.subrange(a, b)[i] == cs.subrange(a, b - 1)[i]); } }
    } else { assert(cs.subrange(a, b) =~= Seq::<SVal>::empty()); assert(buf.subrange(a * w, b * w) =~= Seq::<u8>::empty()); }
}
pub proof fn lemma_addr_push(buf: Seq<u8>, c: Seq<u8>, w: nat)
    requires addr_wf(buf, w), c.len() == w
    ensures addr_wf(buf + c, w), addr_cells(buf + c, w) == addr_cells(buf, w).push(SVal::Addr(c)), (buf + c).len() / w == buf.len() / w + 1
{
    let n = (buf.len() / w) as int;
    lemma_div(n, w as int);
    assert forall|i: int| 0 <= i < n implies #[trigger] addr_cells(buf + c, w)[i] == addr_cells(buf, w)[i] by {
        lemma_div(i, w as int); lemma_mul(i, n - 1, w as int); lemma_mul(i + 1, n, w as int);
        assert((buf + c).subrange(i * w, i * w + w) =~= buf.subrange(i * w, i * w + w));
    }
    assert((buf + c).subrange(n * w, n * w + w) =~= c);
    assert(addr_cells(buf + c, w) =~= addr_cells(buf, w).push(SVal::Addr(c)));
}
pub proof fn lemma_addr_zero(w: nat) requires w > 0 ensures addr_wf(Seq::<u8>::empty(), w), addr_cells(Seq::<u8>::empty(), w) == Seq::<SVal>::empty() { assert(0int / (w as int) == 0) by (nonlinear_arith) requires w > 0; assert(0 * w == 0); assert(addr_cells(Seq::<u8>::empty(), w) =~= Seq::<SVal>::empty()); }
pub proof fn vec_len(v: &Vec<u8>) ensures v@.len() <= usize::MAX { broadcast use vstd::std_specs::vec::group_vec_axioms; let n: usize = vstd::std_specs::vec::spec_vec_len(v); assert(n == v@.len()); }
#[verifier::external_body] pub fn arc_col<C: ColumnData>(c: C) -> (r: ArcColumnData)
    ensures r.wf() == c.wf(), r.ty() == c.ty(), r.cells() == c.cells(), r.dict() == c.dict(),
        forall|v: Value| #[trigger] r.takes(v) == c.takes(v), forall|v: Value| #[trigger] r.stored(v) == c.stored(v) { unimplemented!() }

// the three kinds of addresses; implementations extracted below
pub trait IpVersion: Copy {
    spec fn vt() -> SqlType;
    spec fn is(v: Value) -> bool;
    proof fn known() ensures addr_type(Self::vt()), forall|v: Value| #[trigger] Self::is(v) ==> v.sv() is Addr && v.sv()->Addr_0.len() == addr_w(Self::vt());
    fn sql_type() -> (r: SqlType) ensures r == Self::vt();
    fn size() -> (r: usize) ensures r == addr_w(Self::vt());
    fn push(inner: &mut Vec<u8>, value: Value) requires Self::is(value) ensures final(inner)@ == old(inner)@ + value.sv()->Addr_0;
    fn get(inner: &[u8], index: usize) -> (r: ValueRef) requires (index + 1) * addr_w(Self::vt()) <= inner@.len()
        ensures r.sv() == SVal::Addr(inner@.subrange(index * addr_w(Self::vt()), index * addr_w(Self::vt()) + addr_w(Self::vt()))), of_kind(r, Self::vt());
}
"""
EXT = [(r"inner\.extend\(&v\)", "extend_arr(inner, &v)", "Vec::extend with an array through a stub"), (r"panic!\(\)", "never()", "panic branch: must be unreachable"),
       (r"let mut v: \[u8; (\d+)\] = Default::default\(\);", r"let mut v: [u8; \1] = [0u8; \1];", "Default of an array"), (r"v\.copy_from_slice\(", "copy_arr(&mut v, ", "copy_from_slice through a stub")]


def versions(u):
    for v, w in (("Ipv4", 4), ("Ipv6", 16), ("Uuid", 16)):
        u.item(IP, f"struct {v}", attrs="#[derive(Copy, Clone)]")
        u.text(f"""impl IpVersion for {v} {{
    open spec fn vt() -> SqlType {{ SqlType::{v} }}
    open spec fn is(v: Value) -> bool {{ v is {v} }}
    proof fn known() {{}}""")
        I = (IP, f"impl ^impl IpVersion for {v}$")
        u.fn(*I, "fn sql_type")
        u.fn(*I, "fn size")
        u.fn(*I, "fn push", rewrites=EXT)
        u.fn(*I, "fn get", rewrites=EXT, hints=[("start", "", f"proof {{ slice_len(inner); assert(index * {w} + {w} == (index + 1) * {w}); }}")])
        u.text("}")


def column(u):
    u.item(IP, "struct IpColumnData", rewrites=[PH])
    u.text("impl<V: IpVersion> IpColumnData<V> {")
    I = (IP, "impl ^impl<V: IpVersion> IpColumnData<V>$")
    u.fn(*I, "fn with_capacity", vis="pub", rewrites=[PH], spec="requires capacity * addr_w(V::vt()) <= usize::MAX ensures r.wf(), r.cells().len() == 0", hints=[("start", "", "proof { V::known(); lemma_addr_zero(addr_w(V::vt())); }")])
    u.fn(*I, "fn load", vis="pub", rewrites=[PH, (r"inner\.as_mut\(\)", "inner.as_mut_slice()", "AsMut<[u8]> for Vec<u8>"), (r"vec!\[0; ", "vec![0u8; ", "")],
         spec="""requires size * addr_w(V::vt()) <= usize::MAX
        ensures same_end(*final(reader), *old(reader)), r matches Ok(c) ==> c.wf() && c.cells().len() == size && took(c.ty(), c.cells(), old(reader).rest(), final(reader).rest()),
            old(reader).steady() && old(reader).rest().len() >= size * addr_w(V::vt()) ==> r is Ok""",
         hints=[("start", "", "proof { V::known(); }"), ("before", r"Ok\(Self", """proof { let w = addr_w(V::vt()); let r0 = old(reader).rest(); let n = size as int;
            lemma_div(n, w as int); lemma_addr_cat(inner@, V::vt(), 0, n);
            assert(addr_cells(inner@, w).subrange(0, n) =~= addr_cells(inner@, w)); assert(inner@.subrange(0, n * w) =~= inner@);
            assert(r0.skip(r0.len() - reader.rest().len()) =~= reader.rest()); assert(r0.take(r0.len() - reader.rest().len()) =~= inner@); }""")])
    u.text("""}
impl<V: IpVersion> ColumnData for IpColumnData<V> {
    open spec fn wf(&self) -> bool { addr_wf(self.inner@, addr_w(V::vt())) }
    open spec fn ty(&self) -> SqlType { V::vt() }
    open spec fn cells(&self) -> Seq<SVal> { addr_cells(self.inner@, addr_w(V::vt())) }
    open spec fn dict(&self) -> bool { true }
    open spec fn takes(&self, v: Value) -> bool { V::is(v) }
    open spec fn stored(&self, v: Value) -> SVal { v.sv() }""")
    I = (IP, "impl ^impl<V: IpVersion> ColumnData for IpColumnData<V>$")
    u.fn(*I, "fn sql_type")
    u.fn(*I, "fn save", rewrites=[(r"self\.inner\.as_ref\(\)", "self.inner.as_slice()", "AsRef<[u8]> for Vec<u8>")],
         hints=[("start", "", "proof { V::known(); vec_len(&self.inner); lemma_addr_cat(self.inner@, V::vt(), start as int, end as int); }"),
                ("end", "", "proof { let o = old(encoder)@; let f = encoder@; let w = addr_w(V::vt()); assert(f.take(o.len() as int) =~= o); assert(f.skip(o.len() as int) =~= self.inner@.subrange(start * w, end * w)); }")])
    u.fn("src/types/column/column_data.rs", "trait ColumnData", "fn save_keys", hints=[("start", "", "proof { V::known(); assert(self.cells().subrange(0, self.cells().len() as int) =~= self.cells()); }")])
    u.fn(*I, "fn len", hints=[("start", "", "proof { V::known(); }")])
    u.fn(*I, "fn push", hints=[("start", "", "let ghost v0 = value; proof { V::known(); assert(V::is(value)); lemma_addr_push(self.inner@, v0.sv()->Addr_0, addr_w(V::vt())); }")])
    u.fn(*I, "fn at", rewrites=[(r"V::get\(&self\.inner, index\)", "V::get(self.inner.as_slice(), index)", "Deref of Vec")],
         hints=[("start", "", "proof { V::known(); let w = addr_w(V::vt()); lemma_addr_cat(self.inner@, V::vt(), index as int, index + 1); }")])
    u.text("}")
    K.clone_instance(u, *I, "<V: IpVersion> IpColumnData<V>".replace("<V: IpVersion> ", ""), rewrites=[PH]) if False else None
    u.text("impl<V: IpVersion> IpColumnData<V> {")
    u.fn(*I, "fn clone_instance", vis="pub", spec="requires self.wf() ensures same_col(r, *self)", rewrites=[(r"Box::new\(", "box_col(", "Box<dyn ColumnData> through a stub"), PH, (r"self\.inner\.clone\(\)", "vclone(&self.inner)", "Vec clone")])
    u.text("}\n#[verifier::external_body] pub fn vclone(v: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == v@ { v.clone() }")


BUFS = [(r"buffer\.reverse\(\)", "rev4(&mut buffer)", "slice::reverse through a stub"), (r"buffer\[\.\.(\d+)\]\.reverse\(\)", r"rev16(&mut buffer, 0, \1)", "slice::reverse through a stub"), (r"buffer\[(\d+)\.\.\]\.reverse\(\)", r"rev16(&mut buffer, \1, 16)", "slice::reverse through a stub"),
        (r"inner\.extend\(&(\w+)\)", r"extend_arr(&mut inner, &\1)", "Vec::extend with an array through a stub"), (r"inner\.extend\(&ip\.octets\(\)\)", "extend_arr(&mut inner, &ip.octets())", "Vec::extend with an array through a stub"), (r"inner\.extend\(&\[0; (\d+)\]\)", r"extend_arr(&mut inner, &[0u8; \1])", "Vec::extend with an array through a stub"),
        (r"W::wrap\(", "arc_col(", "wrapper instantiated at ArcColumnWrapper"), (r"Arc::new\((?=IpColumn)", "arc_col(", "Arc<dyn ColumnData> through a stub"), PH, (r"let mut inner = Vec::with_capacity", "let mut inner: Vec<u8> = Vec::with_capacity", "type annotation"),
        (r"n \* (\d+)\)", r"0)", "capacity hint dropped")]


def from_vecs(u):
    u.text("""
pub open spec fn addrs_of<A: Octets>(t: SqlType, d: Seq<A>) -> Seq<SVal> { Seq::new(d.len(), |i: int| SVal::Addr(addr_bytes(t, d[i].octs()))) }
pub open spec fn opt_addrs_of<A: Octets>(t: SqlType, d: Seq<Option<A>>) -> Seq<SVal> { Seq::new(d.len(), |i: int| match d[i] { Some(a) => just(SVal::Addr(addr_bytes(t, a.octs()))), None => SVal::Null }) }
pub fn vget<T: Copy>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { v[i] }
""")
    for a, t, w in (("Ipv4Addr", "Ipv4", 4), ("Ipv6Addr", "Ipv6", 16), ("uuid::Uuid", "Uuid", 16)):
        var = "uuid" if t == "Uuid" else "ip"
        VT = f"SqlType::{t}"
        uu = "proof { if X.octs().len() == 16 { lemma_uuid(X.octs()); } theorem_addr(VT, X.octs()); }".replace("VT", VT)
        SG = [(r"<W: ColumnWrapper>", "", "wrapper instantiated at ArcColumnWrapper"), (r"-> (W::Wrapper|<W as ColumnWrapper>::Wrapper)", "-> ArcColumnData", ""), (r": Self", ": SELF", "Self written out")]
        fn = t.lower()
        u.fn(IP, f"impl ^impl ColumnFrom for Vec<{a}>$", "fn column_from", rename=fn + "_column", vis="pub", sig=SG[:2] + [(r": Self", f": Vec<{a}>", "Self written out")],
             rewrites=[(r"for (\w+) in data \{", r"for i_ in 0..data.len() { let \1 = vget(&data, i_);", "iteration over a Vec as indexing")] + BUFS,
             spec=f"ensures r.wf(), r.ty() == {VT}, r.cells() == addrs_of({VT}, data@)",
             hints=[("start", "", f"proof {{ lemma_addr_zero({w}); }}"), ("after", r"let \w+ = vget\(&data, i_\);", f"let ghost ip0 = data@[i_ as int]; " + uu.replace("X", "ip0"))],
             loops=[dict(head=r"^for i_ in 0\.\.data\.len\(\)$", spec=f"invariant addr_wf(inner@, {w}), addr_cells(inner@, {w}) == addrs_of({VT}, data@.take(i_ as int))",
                         before=f"proof {{ assert(inner@ =~= Seq::<u8>::empty()); assert(addrs_of({VT}, data@.take(0)) =~= Seq::<SVal>::empty()); }}",
                         start="let ghost inner0 = inner@;", end=f"proof {{ let c = addr_bytes({VT}, data@[i_ as int].octs()); lemma_addr_push(inner0, c, {w}); assert(inner@ =~= inner0 + c); assert(addrs_of({VT}, data@.take(i_ + 1)) =~= addrs_of({VT}, data@.take(i_ as int)).push(SVal::Addr(c))); }}",
                         after="proof { assert(data@.take(data@.len() as int) =~= data@); }")])
        u.fn(IP, f"impl ^impl ColumnFrom for Vec<Option<{a}>>$", "fn column_from", rename=fn + "_opt_column", vis="pub", sig=SG[:2] + [(r": Self", f": Vec<Option<{a}>>", "Self written out")],
             rewrites=[(r"for (\w+) in source \{", r"for i_ in 0..source.len() { let \1 = vget(&source, i_);", "iteration over a Vec as indexing")] + BUFS,
             spec=f"ensures r.wf(), r.ty() == SqlType::Nullable(&{VT}), r.cells() == opt_addrs_of({VT}, source@)",
             hints=[("start", "", f"proof {{ lemma_addr_zero({w}); }}"), ("after", r"let \w+ = vget\(&source, i_\);", "let ghost ip1 = source@[i_ as int]; proof { if ip1 is Some { if ip1->Some_0.octs().len() == 16 { lemma_uuid(ip1->Some_0.octs()); } theorem_addr(VT, ip1->Some_0.octs()); } }".replace("VT", VT)),
                    ("after", r"let data = NullableColumnData \{ [^}]*\};", f"proof {{ assert(data.cells() =~= opt_addrs_of({VT}, source@)); }}")],
             loops=[dict(head=r"^for i_ in 0\.\.source\.len\(\)$", spec=f"invariant addr_wf(inner@, {w}), nulls@.len() == i_, inner@.len() / {w}nat == i_, null_cells(nulls@, addr_cells(inner@, {w})) == opt_addrs_of({VT}, source@.take(i_ as int))",
                         before=f"proof {{ assert(inner@ =~= Seq::<u8>::empty()); assert(null_cells(nulls@, addr_cells(inner@, {w})) =~= opt_addrs_of({VT}, source@.take(0))); }}",
                         start="let ghost inner0 = inner@; let ghost nulls0 = nulls@;", end=f"proof {{ let c = inner@.skip(inner0.len() as int); assert(inner@ =~= inner0 + c); if source@[i_ as int] is Some {{ assert(c =~= addr_bytes({VT}, source@[i_ as int]->Some_0.octs())); }} lemma_addr_push(inner0, c, {w}); lemma_null_push(nulls0, addr_cells(inner0, {w}), nulls@.last(), SVal::Addr(c)); assert(nulls@ =~= nulls0.push(nulls@.last())); assert(opt_addrs_of({VT}, source@.take(i_ + 1)) =~= opt_addrs_of({VT}, source@.take(i_ as int)).push(if nulls@.last() == 1 {{ SVal::Null }} else {{ just(SVal::Addr(c)) }})); }}",
                         after="proof { assert(source@.take(source@.len() as int) =~= source@); }")])
    u.text("""
pub proof fn lemma_null_push(n: Seq<u8>, c: Seq<SVal>, b: u8, v: SVal) requires n.len() == c.len() ensures null_cells(n.push(b), c.push(v)) == null_cells(n, c).push(if b == 1 { SVal::Null } else { just(v) })
{ assert(null_cells(n.push(b), c.push(v)) =~= null_cells(n, c).push(if b == 1 { SVal::Null } else { just(v) })); }
""")
    u.fn(V, "impl ^impl From<Uuid> for Value$", "fn from", rename="value_of_uuid", vis="pub", rewrites=BUFS, sig=[(r"v: Uuid", "v: uuid::Uuid", "module path")], spec="ensures r is Uuid, r.sv() == SVal::Addr(addr_bytes(SqlType::Uuid, v.o@))",
         hints=[("start", "", "proof { lemma_uuid(v.o@); }")])


def enums(u):
    u.text("""
pub uninterp spec fn any() -> int;
#[verifier::external_body] pub fn names_clone<T>(v: &Vec<(String, T)>) -> (r: Vec<(String, T)>) ensures r == *v { unimplemented!() }
pub proof fn lemma_enum_cat(t: SqlType, s: SqlType, c: Seq<SVal>)
    requires (t is Enum8 && s is Int8) || (t is Enum16 && s is Int16)
    ensures all_ok(t, c) == all_ok(s, c), cat(t, c) == cat(s, c) decreases c.len()
{ assert(forall|x: SVal| #[trigger] cell_ok(t, x) == cell_ok(s, x)); if c.len() > 0 { lemma_enum_cat(t, s, c.drop_last()); } }
""")
    for e, i, k in (("Enum8", "i8", "Int8"), ("Enum16", "i16", "Int16")):
        u.text(f"impl {e} {{")
        u.fn("src/types/enums.rs", f"impl ^impl {e}$", "fn of", vis="pub", spec="ensures r.0 == source")
        u.fn("src/types/enums.rs", f"impl ^impl {e}$", "fn internal", vis="pub", spec="ensures r == self.0")
        u.text("}")
        K.valueref_into(u, i, N.table(K.VR, "value_from", i), i + "_from")
        u.item(EN, f"struct {e}ColumnData", rewrites=[(r"Box<dyn ColumnData \+ Send \+ Sync>", "ArcColumnData", "Box<dyn ColumnData> seen as a shared column")])
        u.text(f"impl {e}ColumnData {{")
        LD = (r"<dyn ColumnData>::load_data::<BoxColumnWrapper, _>\(", "load_data(", "dispatch by type name through its contract")
        CL = (r"(self\.enum_values|data)\.clone\(\)", r"names_clone(&\1)", "clone of the name table")
        u.fn(EN, f"impl ^impl {e}ColumnData$", "fn load", vis="pub", rewrites=[LD], spec=f"""requires name_type("{k}"@, tz) == Some(SqlType::{k})
        ensures same_end(*final(reader), *old(reader)), r matches Ok(c) ==> c.wf() && c.ty() == SqlType::{e}(enum_values) && c.cells().len() == size && took(c.ty(), c.cells(), old(reader).rest(), final(reader).rest())""",
             hints=[("before", rf"Ok\({e}ColumnData", f"proof {{ lemma_enum_cat(SqlType::{e}(enum_values), SqlType::{k}, inner.cells()); }}")])
        u.text(f"""}}
impl ColumnData for {e}ColumnData {{
    open spec fn wf(&self) -> bool {{ self.inner.wf() && self.inner.ty() is {k} }}
    open spec fn ty(&self) -> SqlType {{ SqlType::{e}(self.enum_values) }}
    open spec fn cells(&self) -> Seq<SVal> {{ self.inner.cells() }}
    open spec fn dict(&self) -> bool {{ true }}
    open spec fn takes(&self, v: Value) -> bool {{ v is {e} && self.inner.takes(Value::{k}(v->{e}_1.0)) }}
    open spec fn stored(&self, v: Value) -> SVal {{ self.inner.stored(Value::{k}(v->{e}_1.0)) }}""")
        I = (EN, f"impl ^impl ColumnData for {e}ColumnData$")
        u.fn(*I, "fn sql_type", rewrites=[CL])
        u.fn(*I, "fn save", hints=[("start", "", f"proof {{ lemma_enum_cat(self.ty(), self.inner.ty(), self.cells().subrange(start as int, end as int)); }}")])
        u.fn("src/types/column/column_data.rs", "trait ColumnData", "fn save_keys", hints=[("start", "", "proof { assert(self.cells().subrange(0, self.cells().len() as int) =~= self.cells()); }")])
        u.fn(*I, "fn len")
        u.fn(*I, "fn push", rewrites=[(r'panic!\("value should be Enum \(\{value:\?\}\)"\)', "never()", "panic branch: must be unreachable"), (r"self\.inner\.push\(", "arc_mut(&mut self.inner).push(", "push through the Box")])
        u.fn(*I, "fn at", rewrites=[(rf"{i}::from\(", f"{i}_from(", "From<ValueRef> by name"), CL], hints=[("start", "", "")])
        u.text(f"}}\nimpl {e}ColumnData {{")
        u.fn(*I, "fn clone_instance", vis="pub", spec="requires self.wf() ensures same_col(r, *self)", rewrites=[(r"Box::new\(", "box_col(", "Box<dyn ColumnData> through a stub"), CL, (r"self\.inner\.clone_instance\(\)", "box_to_arc(clone_dyn(&self.inner))", "clone of a dyn column through stubs")])
        u.fn(*I, "fn cast_to", vis="pub", spec=f"requires self.wf() ensures match *target {{ SqlType::{e}(names) => r matches Some(c) && c.wf() && c.ty() == *target && c.cells() == self.cells(), _ => r is None }}",
             rewrites=[CL, (r"self\.inner\.clone_instance\(\)", "box_to_arc(clone_dyn(&self.inner))", "clone of a dyn column through stubs"), (r"Arc::new\(data\)", "arc_col(data)", "Arc<dyn ColumnData> through a stub")])
        u.text("}")
        # adapter used when a column of enums is inserted
        u.item(EN, f"struct {e}Adapter")
        u.text(f"""impl<K: ColumnType> ColumnData for {e}Adapter<K> {{
    open spec fn wf(&self) -> bool {{ self.column.wf() && self.column.ty() == SqlType::{e}(self.enum_values) && forall|i: int| 0 <= i < self.column.cells().len() ==> cell_ok(self.ty(), #[trigger] self.column.cells()[i]) }}
    open spec fn ty(&self) -> SqlType {{ SqlType::{e}(self.enum_values) }}
    open spec fn cells(&self) -> Seq<SVal> {{ self.column.cells() }}
    open spec fn dict(&self) -> bool {{ true }}
    open spec fn takes(&self, v: Value) -> bool {{ false }}
    open spec fn stored(&self, v: Value) -> SVal {{ SVal::Null }}""")
        I = (EN, rf"impl ^impl<K: ColumnType> ColumnData for {e}Adapter<K>$")
        PN = (r'panic!\("should be Enum"\)', "never()", "panic branch: must be unreachable")
        u.fn(*I, "fn sql_type", rewrites=[CL])
        w = 1 if e == "Enum8" else 2
        u.fn(*I, "fn save", rewrites=[PN], loops=[dict(head=r"^for i in start\.\.end$", spec=f"invariant self.wf(), start <= i, end <= self.cells().len(), encoder@ == old(encoder)@ + cat(self.ty(), self.cells().subrange(start as int, i as int))",
             before="proof { assert(self.cells().subrange(start as int, start as int) =~= Seq::<SVal>::empty()); assert(encoder@ =~= old(encoder)@ + Seq::<u8>::empty()); }",
             end="proof { let c = self.cells(); assert(c.subrange(start as int, i + 1).drop_last() =~= c.subrange(start as int, i as int)); assert(c.subrange(start as int, i + 1).last() == c[i as int]); assert(encoder@ =~= old(encoder)@ + cat(self.ty(), c.subrange(start as int, i + 1))); }",
             after="proof { let o = old(encoder)@; let b = cat(self.ty(), self.cells().subrange(start as int, end as int)); assert((o + b).take(o.len() as int) =~= o); assert((o + b).skip(o.len() as int) =~= b); }")])
        u.fn("src/types/column/column_data.rs", "trait ColumnData", "fn save_keys", hints=[("start", "", "proof { assert(self.cells().subrange(0, self.cells().len() as int) =~= self.cells()); }")])
        u.fn(*I, "fn len")
        u.text("// push: unimplemented!() in the source, no value is accepted\n#[verifier::external_body] fn push(&mut self, value: Value) { unimplemented!() }")
        u.fn(*I, "fn at", rewrites=[PN])
        u.text("}")


def build():
    u = K.prelude("idents", ints=("u8", "u64", "i8", "i16"))
    u.text(K.LOADDATA)
    u.text(K.ADAPT)
    u.text(SPEC)
    u.text("pub proof fn slice_len(d: &[u8]) ensures d@.len() <= usize::MAX { broadcast use vstd::slice::group_slice_axioms; assert(vstd::slice::spec_slice_len(d) == d@.len()); }")
    NU.add(u)
    versions(u)
    column(u)
    from_vecs(u)
    enums(u)
    u.text("} fn main() {}")
    return u
