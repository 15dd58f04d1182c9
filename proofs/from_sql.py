"""Typed access to cells (P17): the FromSql implementations."""
import re
import rsx
from rsx import Lost
from . import cols as K, dates as D, wire as W, numeric as N

F = "src/types/from_sql.py".replace(".py", ".rs")
VR = "src/types/value_ref.rs"
V = "src/types/value.rs"

VROK = """
// ---- a value as a column presents it: the parts of a compound value are of the kinds it declares ----
pub open spec fn vr_ok(v: ValueRef) -> bool decreases v {
    match v {
        ValueRef::Nullable(Either::Right(b)) => vr_ok(*b),
        ValueRef::Array(t, vs) => forall|i: int| 0 <= i < vs@.len() ==> of_kind(#[trigger] vs@[i], *t) && vr_ok(vs@[i]),
        ValueRef::Map(k, x, m) => forall|i: int| 0 <= i < m.es@.len() ==> vr_ok((#[trigger] m.es@[i]).0) && vr_ok(m.es@[i].1),
        _ => true,
    }
}
// every cell of a column is such a value (the contract of ColumnData::at ensures of_kind)
pub proof fn theorem_cells_ok(v: ValueRef, t: SqlType) requires of_kind(v, t) ensures vr_ok(v) decreases t
{
    match t {
        SqlType::Nullable(inner) => { if v->Nullable_0 is Right { theorem_cells_ok(*v->Nullable_0->Right_0, *inner); } }
        SqlType::Array(inner) => { assert forall|i: int| 0 <= i < v->Array_1@.len() implies of_kind(#[trigger] v->Array_1@[i], *v->Array_0) && vr_ok(v->Array_1@[i]) by { theorem_cells_ok(v->Array_1@[i], *inner); } }
        SqlType::Map(k, x) => { assert forall|i: int| 0 <= i < v->Map_2.es@.len() implies vr_ok((#[trigger] v->Map_2.es@[i]).0) && vr_ok(v->Map_2.es@[i].1) by { theorem_cells_ok(v->Map_2.es@[i].0, *k); theorem_cells_ok(v->Map_2.es@[i].1, *x); } }
        SqlType::SimpleAggregateFunction(_, inner) => theorem_cells_ok(v, *inner),
        SqlType::LowCardinality(inner) => theorem_cells_ok(v, *inner),
        _ => {}
    }
}
"""
SPEC = """
impl<'a> Clone for ValueRef<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<K, V> Clone for HashMap<K, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn to_text(t: SqlType) -> (r: String) { unimplemented!() }
pub fn err_text() -> (r: String) { String::new() }
pub fn vget<'b, T>(v: &'b Arc<Vec<T>>, i: usize) -> (r: &'b T) requires i < v@.len() ensures *r == v@[i as int] { &v[i] }
// std::str::from_utf8, <[u8]>::to_vec, str::to_string (dependencies; assumed)
#[verifier::external_body] pub fn str_from_utf8<'b>(b: &'b [u8]) -> (r: Result<&'b str>) ensures r is Ok <==> valid_utf8(b@), r matches Ok(s) ==> encode_utf8(s@) == b@ { unimplemented!() }
#[verifier::external_body] pub fn owned_bytes(b: &[u8]) -> (r: Vec<u8>) ensures r@ == b@ { b.to_vec() }
#[verifier::external_body] pub fn owned_str(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
"""
TRAIT = """
// ---- what it means to read a value as a Rust type ----
pub trait FromSql<'a>: Sized {
    spec fn fits(v: ValueRef) -> bool;              // v can be read as this type ...
    spec fn shows(self, v: ValueRef) -> bool;       // ... and self is then the value of v
    fn from_sql(value: ValueRef<'a>) -> (r: Result<Self>) requires vr_ok(value)
        ensures r is Ok <==> Self::fits(value), r matches Ok(x) ==> x.shows(value);
}
pub type FromSqlResult<T> = Result<T>;
"""
TXT = [(r"SqlType::from\((value(?:\.clone\(\))?|self\.clone\(\))\)\.to_string\(\)", r"to_text(sql_type_of(\1))", "Display text of a type through a stub"),
       (r"(\bdst: )(?:stringify!\([^)]*\)\.into\(\)|format!\([^;]*?\)\.into\(\)|\"[^\"]*\"\.into\(\))", r"\1err_text()", "text of an error message")]
UTF = (r"str::from_utf8\((\w+)\)\?", r"str_from_utf8(\1)?", "str::from_utf8 through a stub")


def sql_type_of(u):
    u.text("""
// the type a value belongs to; defined for every value (no panic while an error is reported)
""")
    u.fn(VR, "impl ^impl<'a> From<ValueRef<'a>> for SqlType$", "fn from", rename="sql_type_of", vis="pub", sig=[(r"Self", "SqlType", "Self written out"), (r"ValueRef<'a>", "ValueRef", "")],
         rewrites=[(r"SqlType::from\(\*value_ref\)\.into\(\)", "intern(sql_type_of(*value_ref))", "recursion by name; interning stub")],
         spec="ensures vr_type(source, r) decreases source")
    u.text("""
pub open spec fn vr_type(v: ValueRef, t: SqlType) -> bool {
    match v { ValueRef::String(_) => t is String, ValueRef::DateTime(_, _) => t == SqlType::DateTime(DateTimeType::DateTime32), ValueRef::Nullable(Either::Left(n)) => t == SqlType::Nullable(n),
        ValueRef::Nullable(Either::Right(b)) => t is Nullable, ValueRef::Array(n, _) => t == SqlType::Array(n), ValueRef::Map(k, x, _) => t == SqlType::Map(k, x), _ => of_kind(v, t) }
}
""")


def one(u, ty, fits, shows, route, rewrites=(), hints=(), loops=(), sig=(), bounds="", head=None):
    u.text(f"{head or f'impl<{chr(39)}a> FromSql<{chr(39)}a> for {ty}'} {{\n    open spec fn fits(v: ValueRef) -> bool {{ {fits} }}\n    open spec fn shows(self, v: ValueRef) -> bool {{ {shows} }}")
    u.fn(F, *route, "fn from_sql", rewrites=list(rewrites) + TXT, hints=hints, loops=loops, sig=[(r"-> FromSqlResult<&'a (str|\[u8\])>", "-> Result<Self>", ""), (r"FromSqlResult<Self>", "Result<Self>", "")] + list(sig))
    u.text("}")


def impl(ty):
    return ("impl ^impl<'a> FromSql<'a> for " + re.escape(ty) + "$",)


def build():
    u = K.prelude("from_sql", ints=("u8", "u64"))
    D.conversions(u)
    u.text(VROK)
    u.text(SPEC)
    u.text(TRAIT)
    sql_type_of(u)
    u.text("impl<'a> ValueRef<'a> {")
    IV = (VR, "impl ^impl<'a> ValueRef<'a>$")
    OUT = [(r"return Ok\(str::from_utf8\((\w+)\)\?\);", r"return str_from_utf8(\1);", "`Ok(e?)` with a foreign error written as the stub's result")]
    u.fn(*IV, "fn as_str", vis="pub", rewrites=OUT + TXT, spec="ensures r is Ok <==> *self is String && valid_utf8(self->String_0@), r matches Ok(s) ==> encode_utf8(s@) == self->String_0@")
    u.fn(*IV, "fn as_string", vis="pub", rewrites=[(r"tmp\.to_string\(\)", "owned_str(tmp)", "str::to_string through a stub")] + TXT, spec="ensures r is Ok <==> *self is String && valid_utf8(self->String_0@), r matches Ok(s) ==> encode_utf8(s@) == self->String_0@")
    u.fn(*IV, "fn as_bytes", vis="pub", rewrites=TXT, spec="ensures r is Ok <==> *self is String, r matches Ok(s) ==> s@ == self->String_0@")
    u.text("}")
    # numbers
    for t, k in N.KIND.items():
        src = N.table(F, "from_sql_impl", t)
        cell = "SVal::Bool(self)" if t == "bool" else f"SVal::F{t[1:]}(self)" if t[0] == "f" else "SVal::Num(self as int)"
        one(u, t, f"v is {k}", f"v is {k} && v.sv() == {cell}", (f"macro_expand from_sql_impl t={t},k={src}", f"impl ^impl<'a> FromSql<'a> for {t}$"))
    u.text("""
// and so the requested type has to be the column's type
pub proof fn theorem_types(v: ValueRef, t: SqlType)
    requires of_kind(v, t), !(t is LowCardinality), !(t is SimpleAggregateFunction)
    ensures %s
{}
""" % ", ".join(f"<{t} as FromSql>::fits(v) <==> t is {k}" for t, k in N.KIND.items()))
    one(u, "Decimal", "v is Decimal", "v == ValueRef::Decimal(self)", impl("Decimal"))
    for e in ("Enum8", "Enum16"):
        one(u, e, f"v is {e}", f"v is {e} && v->{e}_1 == self", impl(e))
    S = "v is String && valid_utf8(v->String_0@)"
    one(u, "&'a str", S, "v is String && encode_utf8(self@) == v->String_0@", impl("&'a str"))
    one(u, "&'a [u8]", "v is String", "v is String && self@ == v->String_0@", impl("&'a [u8]"))
    one(u, "String", S, "v is String && encode_utf8(self@) == v->String_0@", impl("String"),
        rewrites=[(r"value\.as_str\(\)\.map\(str::to_string\)", "match value.as_str() { Ok(s) => Ok(owned_str(s)), Err(e) => Err(e) }", "Result::map as a match; str::to_string through a stub")])
    # addresses
    u.text("""
pub struct Ipv4Addr { pub octets: [u8; 4] }
pub struct Ipv6Addr { pub octets: [u8; 16] }
pub struct Uuid { pub bytes: [u8; 16] }
#[verifier::external_body] pub fn ipv4_from(b: [u8; 4]) -> (r: Ipv4Addr) ensures r.octets == b { unimplemented!() }
#[verifier::external_body] pub fn ipv6_from(b: [u8; 16]) -> (r: Ipv6Addr) ensures r.octets == b { unimplemented!() }
#[verifier::external_body] pub fn uuid_from(b: [u8; 16]) -> (r: Uuid) ensures r.bytes == b { unimplemented!() }
// <[u8]>::reverse of an array, or of a part of it
#[verifier::external_body] pub fn rev4(b: &mut [u8; 4]) ensures final(b)@ == old(b)@.reverse() { b.reverse() }
#[verifier::external_body] pub fn rev16(b: &mut [u8; 16], from: usize, to: usize) requires from <= to <= 16 ensures final(b)@ == old(b)@.take(from as int) + old(b)@.subrange(from as int, to as int).reverse() + old(b)@.skip(to as int) { b[from..to].reverse() }
""")
    REV = [(r"buffer\.reverse\(\)", "rev4(&mut buffer)", "slice::reverse through a stub"), (r"buffer\[\.\.(\d+)\]\.reverse\(\)", r"rev16(&mut buffer, 0, \1)", "slice::reverse through a stub"), (r"buffer\[(\d+)\.\.\]\.reverse\(\)", r"rev16(&mut buffer, \1, 16)", "slice::reverse through a stub"),
           (r"Ipv4Addr::from\(", "ipv4_from(", "From<[u8; 4]>"), (r"Ipv6Addr::from\(", "ipv6_from(", "From<[u8; 16]>"), (r"(?:uuid::)?Uuid::from_bytes\(", "uuid_from(", "Uuid::from_bytes")]
    u.fn(V, "fn decode_ipv4", vis="pub", rewrites=REV, spec="ensures r.octets@ == octets@.reverse()")
    u.fn(V, "fn decode_ipv6", vis="pub", rewrites=REV, spec="ensures r.octets@ == octets@")
    one(u, "Ipv4Addr", "v is Ipv4", "v is Ipv4 && self.octets@ == v->Ipv4_0@.reverse()", impl("Ipv4Addr"))
    one(u, "Ipv6Addr", "v is Ipv6", "v is Ipv6 && self.octets@ == v->Ipv6_0@", impl("Ipv6Addr"))
    one(u, "Uuid", "v is Uuid", "v is Uuid && self.bytes@ == v->Uuid_0@.take(8).reverse() + v->Uuid_0@.skip(8).reverse()", impl("uuid::Uuid"), rewrites=REV,
        hints=[("before", r"Ok\(uuid_from\(", "proof { let b = row@; let m = b.take(8).reverse() + b.skip(8); assert(b.take(0) + b.subrange(0, 8).reverse() + b.skip(8) =~= m); assert(m.take(8) + m.subrange(8, 16).reverse() + m.skip(16) =~= b.take(8).reverse() + b.skip(8).reverse()); assert(buffer@ =~= b.take(8).reverse() + b.skip(8).reverse()); }")])
    # dates
    I64F, MAPD = D.I64F, (r"NaiveDate::from_ymd_opt\(1970, 1, 1\)\s*\.map\(\|(\w+)\| (\w+) \+ Duration::days\((\w+)\.into\(\)\)\)\s*\.ok_or\((.*?)\),\s*_ =>",
         r"match NaiveDate::from_ymd_opt(1970, 1, 1) { Some(\1) => Ok(\2.plus_days(\3)), None => Err(\4) }, _ =>", "Option::map/ok_or as a match; day arithmetic through a stub")
    one(u, "NaiveDate", "v is Date", "v is Date && day_of(self) == v->Date_0", impl("NaiveDate"), rewrites=[MAPD])
    P64 = "v->DateTime64_1.0 as nat"
    one(u, "AppDateTime", f"v is DateTime || (v is DateTime64 && in_range64(v->DateTime64_0, v->DateTime64_1.0))",
        f"(v is DateTime && self.secs == v->DateTime_0 && self.nanos == 0 && self.tz == v->DateTime_1) || (v is DateTime64 && self.tz == v->DateTime64_1.1 && (v->DateTime64_1.0 <= 9 ==> self.secs == tick_secs(v->DateTime64_0 as int, {P64}) && self.nanos == tick_nanos(v->DateTime64_0 as int, {P64})))", impl("DateTime<Tz>"),
        rewrites=[I64F, (r"(to_datetime_opt\([^;]*?\))\s*\.single\(\)\s*\.ok_or\((.*?)\)\s*\}", r"match \1.single() { Some(x) => Ok(x), None => Err(\2) } }", "Option::ok_or as a match")],
        hints=[("start", "", "broadcast use axiom_chrono; proof { if value is DateTime64 { lemma_tick(value->DateTime64_0, value->DateTime64_1.0); } }")])
    # Option
    one(u, "Option<T>", "match v { ValueRef::Nullable(Either::Left(_)) => true, ValueRef::Nullable(Either::Right(b)) => T::fits(*b), _ => false }",
        "match v { ValueRef::Nullable(Either::Left(_)) => self is None, ValueRef::Nullable(Either::Right(b)) => self is Some && self->Some_0.shows(*b), _ => false }",
        ("impl ^impl<'a, T> FromSql<'a> for Option<T>",), rewrites=[(r"u\.as_ref\(\)\.clone\(\)", "(*u).clone()", "Box::as_ref")], head="impl<'a, T: FromSql<'a>> FromSql<'a> for Option<T>")
    u.text("""
// NULL is never a value of a type that is not optional
pub proof fn theorem_null(t: &'static SqlType)
    ensures ({ let v = ValueRef::Nullable(Either::Left(t)); %s })
{}
""" % " && ".join(f"!<{t} as FromSql>::fits(v)" for t in list(N.KIND) + ["String", "&[u8]", "Decimal", "Enum8", "Enum16", "Ipv4Addr", "Ipv6Addr", "Uuid", "NaiveDate", "AppDateTime"]))
    vecs(u)
    maps(u)
    u.text("} fn main() {}")
    return u


EACH = """
// element-wise reading of an array
pub open spec fn arr_fits<'a, T: FromSql<'a>>(v: ValueRef) -> bool { v is Array && forall|i: int| 0 <= i < v->Array_1@.len() ==> T::fits(#[trigger] v->Array_1@[i]) }
pub open spec fn arr_shows<'a, T: FromSql<'a>>(x: Seq<T>, v: ValueRef) -> bool { v is Array && x.len() == v->Array_1@.len() && forall|i: int| 0 <= i < x.len() ==> (#[trigger] x[i]).shows(v->Array_1@[i]) }
pub proof fn lemma_kinds<'a, T: FromSql<'a>>(v: ValueRef, k: int) requires v is Array, vr_ok(v), 0 <= k < v->Array_1@.len() ensures of_kind(v->Array_1@[k], *v->Array_0), vr_ok(v->Array_1@[k]) {}
"""


def vecs(u):
    u.text(EACH)
    for t, k in N.KIND.items():
        if t != "u8" and t in D_INTO:
            K.valueref_into(u, t, N.table(VR, "value_from", t), t + "_from")
    K.valueref_into(u, "u8", N.table(VR, "value_from", "u8"), "u8_from")
    for e in ("Enum8", "Enum16"):
        u.fn(VR, f"impl ^impl<'a> From<ValueRef<'a>> for {e}$", "fn from", rename=e.lower() + "_of", vis="pub", sig=[(r"Self", e, "Self written out"), (r"ValueRef<'a>", "ValueRef", "")], rewrites=[D.NEVR], spec=f"requires value is {e} ensures r == value->{e}_1")
    ITER = lambda v: (r"for %s in vs\.iter\(\) \{" % v, "for i_ in 0..vs.len() { let %s = vget(&vs, i_);" % v, "iteration over a Vec as indexing")
    LOOP = lambda t: [dict(head=r"^for i_ in 0\.\.vs\.len\(\)$", spec=f"invariant value0 is Array, vr_ok(value0), vs == value0->Array_1, ARRT, result@.len() == i_, value0 == value, (forall|i: int| 0 <= i < i_ ==> {t}::fits(#[trigger] value0->Array_1@[i])), (forall|i: int| 0 <= i < i_ ==> (#[trigger] result@[i]).shows(value0->Array_1@[i]))", start=f"proof {{ lemma_kinds::<{t}>(value0, i_ as int); }}")]
    # second macro: numbers, by From<ValueRef>
    args = rsx.macro_args(F, "from_sql_vec_impl")
    if len(args) != 2:
        raise Lost(F + ": from_sql_vec_impl! is invoked %d times" % len(args))
    tab = {a.partition(":")[0].strip(): a.partition(":")[2].strip() for a in args[1]}
    for t, k in N.KIND.items():
        if t == "u8":
            continue
        if t not in tab:
            raise Lost(F + ": from_sql_vec_impl! has no entry for " + t)
        l = LOOP(t); l[0]["spec"] = l[0]["spec"].replace("ARRT", f"*value0->Array_0 is {k}")
        one(u, f"Vec<{t}>", f"v is Array && *v->Array_0 is {k}", f"arr_shows(self@, v)", (f"macro_expand from_sql_vec_impl#2 t={t},k={tab[t]}", f"impl ^impl<'a> FromSql<'a> for Vec<{t}>$"),
            rewrites=[ITER("v"), (r"v\.clone\(\)\.into\(\)", f"{t}_from(v.clone())", "From<ValueRef> by name"), (r"Vec::with_capacity", f"Vec::<{t}>::with_capacity", "type annotation")],
            hints=[("start", "", "let ghost value0 = value;")], loops=l)
    l = LOOP("u8"); l[0]["spec"] = l[0]["spec"].replace("ARRT", "*value0->Array_0 is UInt8")
    one(u, "Vec<u8>", "v is String || (v is Array && *v->Array_0 is UInt8)", "if v is String { self@ == v->String_0@ } else { arr_shows(self@, v) }", impl("Vec<u8>"),
        rewrites=[ITER("r"), (r"r\.clone\(\)\.into\(\)", "u8_from(r.clone())", "From<ValueRef> by name"), (r"value\.as_bytes\(\)\.map\(\|bs\| bs\.to_vec\(\)\)", "match value.as_bytes() { Ok(bs) => Ok(owned_bytes(bs)), Err(e) => Err(e) }", "Result::map as a match"), (r"Vec::with_capacity", "Vec::<u8>::with_capacity", "type annotation")],
        hints=[("start", "", "let ghost value0 = value;")], loops=l)
    # first macro: a closure per type
    ent = []
    for a in args[0]:
        m = re.match(r"(.*?):\s*(SqlType::\w+(?:\(_\))?)\s*=>\s*\|r\| (.*)$", a)
        if not m:
            raise Lost(F + ": from_sql_vec_impl! entry " + a)
        ent.append(m.groups())
    for t, pat, body in ent:
        kind = re.match(r"SqlType::(\w+)", pat).group(1)
        b = body
        tt = {"DateTime<Tz>": "AppDateTime"}.get(t, t)
        name = {"NaiveDate": "date_from_ref", "AppDateTime": "time_from_ref", "Enum8": "enum8_of", "Enum16": "enum16_of"}.get(tt)
        if name:
            b = b.replace("r.into()", f"{name}(r)")
        b = re.sub(r"(?:<DateTime<Tz>>|DateTime::<Tz>|FromSql|<DateTime<Tz> as FromSql>|DateTime)::from_sql\(r\)", f"<{tt} as FromSql>::from_sql(r)", b)
        b = re.sub(r"r\.as_bytes\(\)\.map\(<\[u8\]>::to_vec\)", "(match r.as_bytes() { Ok(x) => Ok(owned_bytes(x)), Err(e) => Err(e) })", b)
        each = "T" if tt != "Vec<u8>" else "T"
        l = LOOP(tt if tt[0] != "&" else f"<{tt}>")
        if tt == "Vec<u8>":
            l[0]["spec"] = l[0]["spec"].replace("Vec<u8>::", "<Vec<u8>>::")
        l[0]["spec"] = l[0]["spec"].replace("ARRT", f"*value0->Array_0 is {kind}")
        l[0]["start"] = f"proof {{ lemma_kinds::<{tt}>(value0, i_ as int); }}"
        one(u, f"Vec<{tt}>", f"v is Array && *v->Array_0 is {kind} && arr_fits::<{tt}>(v)", "arr_shows(self@, v)", (f"macro_expand from_sql_vec_impl t={t},k={pat},f=|r| {body}", "impl ^impl<'a> FromSql<'a> for Vec<" + re.escape(t) + ">$"),
            rewrites=[(r"let f: fn\(ValueRef<'a>\) -> FromSqlResult<.*?> = \|r\| .*?;\s*(?=let mut)", "", "the closure passed to the macro is inlined at its only call"), ITER("r"), (r"let value: [^;=]*= f\(r\.clone\(\)\)\?;", lambda m, b=b, tt=tt: f"let r = r.clone(); let value: {tt} = match {b} {{ Ok(x) => x, Err(e) => {{ proof {{ assert(r == vs@[i_ as int]); assert(!<{tt} as FromSql>::fits(value0->Array_1@[i_ as int])); }} return Err(e) }} }}; proof {{ assert(r == vs@[i_ as int]); assert(<{tt} as FromSql>::fits(r)); assert(value.shows(r)); }}", "the closure inlined; `?` written out"), (r"Vec::with_capacity", f"Vec::<{tt}>::with_capacity", "type annotation")],
            hints=[("start", "", "let ghost value0 = value; broadcast use axiom_chrono;")], loops=l)


D_INTO = set(N.KIND)


def maps(u):
    u.text("""
// std HashMap (see cols: the pairs in iteration order)
impl<K, V> HashMap<K, V> {
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r.es@.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn capacity(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) ensures final(self).es@ == old(self).es@.push((k, v)) { unimplemented!() }
}
pub fn pair_at<'b, K, V>(m: &'b Arc<HashMap<K, V>>, i: usize) -> (r: (&'b K, &'b V)) requires i < m.es@.len() ensures *r.0 == m.es@[i as int].0, *r.1 == m.es@[i as int].1 { let e = &m.es[i]; (&e.0, &e.1) }
pub fn pairs_len<K, V>(m: &Arc<HashMap<K, V>>) -> (r: usize) ensures r == m.es@.len() { m.es.len() }
#[verifier::external_body] pub fn other_error(s: &str) -> (r: Error) { unimplemented!() }
pub open spec fn map_fits<'a, K: FromSql<'a>, V: FromSql<'a>>(v: ValueRef) -> bool { v is Map && forall|i: int| 0 <= i < v->Map_2.es@.len() ==> K::fits((#[trigger] v->Map_2.es@[i]).0) && V::fits(v->Map_2.es@[i].1) }
""")
    one(u, "HashMap<K, V>", "map_fits::<K, V>(v)", "v is Map && self.es@.len() == v->Map_2.es@.len() && forall|i: int| 0 <= i < self.es@.len() ==> (#[trigger] self.es@[i]).0.shows(v->Map_2.es@[i].0) && self.es@[i].1.shows(v->Map_2.es@[i].1)",
        ("impl ^impl<'a, K, V> FromSql<'a> for HashMap<K, V>",), head="impl<'a, K: FromSql<'a>, V: FromSql<'a>> FromSql<'a> for HashMap<K, V>",
        rewrites=[(r"for \(k, v\) in hm\.iter\(\) \{", "for i_ in 0..pairs_len(&hm) { let (k, v) = pair_at(&hm, i_);", "iteration over the pairs of a HashMap as indexing of the model"), (r"Error::from\(\"[^\"]*\"\)", 'other_error("")', "error text"), (r"HashMap::with_capacity", "HashMap::<K, V>::with_capacity", "type annotation")],
        hints=[("start", "", "let ghost value0 = value;")],
        loops=[dict(head=r"^for i_ in 0\.\.pairs_len\(&hm\)$", spec="invariant value0 is Map, vr_ok(value0), hm == value0->Map_2, res.es@.len() == i_, value0 == value, (forall|i: int| 0 <= i < i_ ==> K::fits((#[trigger] value0->Map_2.es@[i]).0) && V::fits(value0->Map_2.es@[i].1)), forall|i: int| 0 <= i < i_ ==> (#[trigger] res.es@[i]).0.shows(hm.es@[i].0) && res.es@[i].1.shows(hm.es@[i].1)", start="proof { assert(vr_ok(hm.es@[i_ as int].0) && vr_ok(hm.es@[i_ as int].1)); }")])
