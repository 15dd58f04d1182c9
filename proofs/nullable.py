"""Nullable columns (P10)."""
from . import cols as K

N = "src/types/column/nullable.rs"
I = (N, "impl ^impl ColumnData for NullableColumnData$")


def add(u):
    u.item(N, "struct NullableColumnData")
    u.text("""
pub open spec fn null_cells(nulls: Seq<u8>, inner: Seq<SVal>) -> Seq<SVal> {
    Seq::new(nulls.len(), |i: int| if nulls[i] == 1 { SVal::Null } else { just(inner[i]) })
}
impl NullableColumnData {""")
    u.fn(N, "impl ^impl NullableColumnData$", "fn load", vis="pub", rewrites=[K.LOADRW, (r"nulls\.as_mut\(\)", "nulls.as_mut_slice()", "AsMut<[u8]> for Vec<u8> is as_mut_slice")],
         spec="""ensures
        same_end(*final(reader), *old(reader)),
        r matches Ok(c) ==> c.wf() && c.cells().len() == size && Some(c.inner.ty()) == name_type(type_name@, tz)
            && took(c.ty(), c.cells(), old(reader).rest(), final(reader).rest())""",
         hints=[("before", r"Ok\(NullableColumnData", """proof {
            let c = NullableColumnData { inner, nulls };
            let o = old(reader).rest(); let f = reader.rest();
            let used = o.take(o.len() - f.len());
            assert(used.take(size as int) =~= nulls@);
            assert(used.skip(size as int) =~= o.skip(size as int).take(o.skip(size as int).len() - f.len()));
            assert(o.skip(o.len() - f.len()) =~= f);
            assert(same_where_set(c.cells(), inner.cells()));
        }""")])
    u.text("""}
impl ColumnData for NullableColumnData {
    open spec fn wf(&self) -> bool { self.inner.wf() && self.nulls@.len() == self.inner.cells().len() }
    open spec fn ty(&self) -> SqlType { SqlType::Nullable(&self.inner.ty()) }
    open spec fn cells(&self) -> Seq<SVal> { null_cells(self.nulls@, self.inner.cells()) }
    open spec fn dict(&self) -> bool { self.inner.dict() && !(self.inner.ty() is Nullable) }
    open spec fn takes(&self, v: Value) -> bool {
        match v {
            Value::Nullable(Either::Left(t)) => self.inner.takes(default_val(*t)),
            Value::Nullable(Either::Right(b)) => self.inner.takes(*b),
            _ => self.inner.takes(v),
        }
    }
    open spec fn stored(&self, v: Value) -> SVal {
        match v {
            Value::Nullable(Either::Left(t)) => SVal::Null,
            Value::Nullable(Either::Right(b)) => just(self.inner.stored(*b)),
            _ => just(self.inner.stored(v)),
        }
    }""")
    u.fn(*I, "fn sql_type", rewrites=[K.INTORW])
    u.fn(*I, "fn save", rewrites=[(r"self\.nulls\.as_ref\(\)", "self.nulls.as_slice()", "AsRef<[u8]> for Vec<u8> is as_slice")],
         hints=[("end", "", """proof {
            let o = old(encoder)@; let f = encoder@; let n = end - start;
            let cs = self.cells().subrange(start as int, end as int);
            let vals = self.inner.cells().subrange(start as int, end as int);
            let b = f.skip(o.len() as int);
            let o2 = o + self.nulls@.subrange(start as int, end as int);
            assert(f.take(o2.len() as int) == o2);
            assert(f.take(o.len() as int) =~= o2.take(o.len() as int)); assert(o2.take(o.len() as int) =~= o);
            assert(b.take(n) =~= o2.skip(o.len() as int)); assert(o2.skip(o.len() as int) =~= self.nulls@.subrange(start as int, end as int));
            assert(b.skip(n) =~= f.skip(o2.len() as int));
            assert(same_where_set(cs, vals));
        }""")])
    u.fn(*I, "fn save_keys", hints=[("end", "", """proof {
            assert(null_keys(self.cells(), self.inner.cells()) );
        }""")])
    u.fn(*I, "fn len", rewrites=[(r"assert_eq!\((.*?), (.*?)\);", r"assert_same(\1, \2);", "assert_eq! through a stub that requires equality")])
    u.fn(*I, "fn push", rewrites=[K.GETMUT, K.DEFRW], hints=[("end", "", """proof {
            assert(self.cells() =~= old(self).cells().push(old(self).stored(value)));
        }""")])
    u.fn(*I, "fn at", rewrites=[K.INTORW])
    u.text("}")
    K.clone_instance(u, *I, "NullableColumnData")


def build():
    u = K.prelude("nullable")
    u.text(K.LOADDATA)
    add(u)
    u.text("} fn main() {}")
    return u
