"""Dates, DateTime and DateTime64 (P14)."""
import re
from . import cols as K, numeric as N, decimals as DM

DA = "src/types/column/date.rs"
D64 = "src/types/column/datetime64.rs"
CH = "src/types/column/chrono_datetime.rs"
DC = "src/types/date_converter.rs"
V = "src/types/value.rs"
VR = "src/types/value_ref.rs"

SPEC = DM.SPEC[:DM.SPEC.index("// ---- what a decimal denotes")] + """
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { a / b } else { -((-a) / b) } }
pub open spec fn in_i64(x: int) -> bool { i64::MIN <= x <= i64::MAX }
#[verifier::external_body] pub fn never() -> ! requires false { unimplemented!() }
#[verifier::external_body] pub fn i64_div(a: i64, b: i64) -> (r: i64) requires b > 0 ensures r == tdiv(a as int, b as int) { a / b }
// i64 arithmetic of std
#[verifier::external_body] pub fn ipow(b: i64, e: u32) -> (r: i64) requires b == 10, e <= 18 ensures r == p10(e as nat) { b.pow(e) }
#[verifier::external_body] pub fn div_euclid(a: i64, b: i64) -> (r: i64) requires b > 0 ensures r == a as int / b as int { a.div_euclid(b) }
#[verifier::external_body] pub fn rem_euclid(a: i64, b: i64) -> (r: i64) requires b > 0 ensures r == a as int % b as int { a.rem_euclid(b) }
pub fn and_add(a: Option<i64>, b: i64) -> (r: Option<i64>) ensures r == (if a is Some && in_i64(a->Some_0 + b) { Some((a->Some_0 + b) as i64) } else { None }) { match a { Some(x) => x.checked_add(b), None => None } }
pub fn expect_some<T>(a: Option<T>) -> (r: T) requires a is Some ensures a == Some(r) { match a { Some(x) => x, None => never() } }
// ---- chrono and chrono-tz (dependencies; assumed) ----
// An AppDateTime is an instant (seconds and nanoseconds since 1970-01-01 UTC) with a zone to show it in;
// a NaiveDate is a day, counted as chrono's num_days_from_ce does.
pub struct NaiveDate { pub ce: i32 }
pub type AppDate = NaiveDate;
pub uninterp spec fn chrono_ok(secs: int) -> bool;      // chrono can represent this second
pub broadcast axiom fn axiom_chrono(s: int) requires 0 <= s < 0x1_0000_0000 ensures #[trigger] chrono_ok(s);
pub enum LocalResult<T> { None, Single(T), Ambiguous(T, T) }
impl<T> LocalResult<T> {
    pub fn unwrap(self) -> (r: T) requires self is Single ensures LocalResult::Single(r) == self { match self { LocalResult::Single(x) => x, _ => never() } }
    pub fn single(self) -> (r: Option<T>) ensures r == (if self is Single { Some(self->Single_0) } else { None }) { match self { LocalResult::Single(x) => Some(x), _ => None } }
}
impl Tz {
    #[verifier::external_body] pub fn timestamp_opt(&self, secs: i64, nanos: u32) -> (r: LocalResult<AppDateTime>) requires nanos < 1_000_000_000
        ensures r == (if chrono_ok(secs as int) { LocalResult::Single(AppDateTime { secs, nanos, tz: *self }) } else { LocalResult::None }) { unimplemented!() }
}
impl AppDateTime {
    #[verifier::external_body] pub fn timestamp(&self) -> (r: i64) ensures r == self.secs { unimplemented!() }
    #[verifier::external_body] pub fn timestamp_subsec_nanos(&self) -> (r: u32) ensures r == self.nanos { unimplemented!() }
    #[verifier::external_body] pub fn timezone(&self) -> (r: Tz) ensures r == self.tz { unimplemented!() }
    #[verifier::external_body] pub fn with_timezone(&self, tz: &Tz) -> (r: AppDateTime) ensures r.secs == self.secs, r.nanos == self.nanos, r.tz == *tz { unimplemented!() }
}
impl NaiveDate {
    #[verifier::external_body] pub fn num_days_from_ce(&self) -> (r: i32) ensures r == self.ce { unimplemented!() }
    #[verifier::external_body] pub fn from_ymd_opt(y: i32, m: u32, d: u32) -> (r: Option<NaiveDate>) ensures y == 1970 && m == 1 && d == 1 ==> r == Some(NaiveDate { ce: 719_163 }) { unimplemented!() }
    #[verifier::external_body] pub fn plus_days(self, n: u16) -> (r: NaiveDate) requires self.ce == 719_163 ensures r.ce == self.ce + n { unimplemented!() }
}
pub open spec fn day_of(d: NaiveDate) -> int { d.ce - 719_163 }
// ---- the instant a value denotes, in nanoseconds; a tick of precision p is 10^(9-p) ns ----
pub open spec fn tick_secs(v: int, p: nat) -> int { v / p10(p) }
pub open spec fn tick_nanos(v: int, p: nat) -> int { (v % p10(p)) * p10((9 - p) as nat) }
pub open spec fn ticks(secs: int, nanos: int, p: nat) -> int { secs * p10(p) + nanos / p10((9 - p) as nat) }
pub open spec fn ns(secs: int, nanos: int) -> int { secs * 1_000_000_000 + nanos }
pub proof fn lemma_p10_9() ensures p10(9) == 1_000_000_000 { reveal_with_fuel(p10, 10); }
pub proof fn lemma_split(p: nat) requires p <= 9 ensures p10(p) * p10((9 - p) as nat) == 1_000_000_000, 0 < p10(p) <= 1_000_000_000, 0 < p10((9 - p) as nat) <= 1_000_000_000
{ lemma_p10_9(); lemma_p10_add(p, (9 - p) as nat); lemma_p10(p); lemma_p10((9 - p) as nat); lemma_p10_mono(p, 9); lemma_p10_mono((9 - p) as nat, 9); }
// splitting ticks into seconds and nanoseconds is exact
pub proof fn theorem_exact(v: int, p: nat) requires p <= 9
    ensures ns(tick_secs(v, p), tick_nanos(v, p)) == v * p10((9 - p) as nat), 0 <= tick_nanos(v, p) < 1_000_000_000
{
    lemma_split(p); let (a, b) = (p10(p), p10((9 - p) as nat)); let (q, r) = (v / a, v % a);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v, a);
    assert(0 <= r < a) by (nonlinear_arith) requires r == v % a, a > 0;
    assert(v * b == q * (a * b) + r * b) by (nonlinear_arith) requires v == a * q + r;
    assert(0 <= r * b <= (a - 1) * b) by (nonlinear_arith) requires 0 <= r <= a - 1, b > 0;
    assert((a - 1) * b == a * b - b) by (nonlinear_arith);
}
// reading a stored number and writing it back reproduces it
pub proof fn theorem_round_trip(v: int, p: nat) requires p <= 9 ensures ticks(tick_secs(v, p), tick_nanos(v, p), p) == v
{
    lemma_split(p); let (a, b) = (p10(p), p10((9 - p) as nat)); let r = v % a;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v, a);
    assert((r * b) / b == r) by (nonlinear_arith) requires b > 0;
    assert(tick_secs(v, p) * a == a * (v / a)) by (nonlinear_arith) requires tick_secs(v, p) == v / a;
}
// an instant written to a column of precision p is off by less than one tick
pub proof fn theorem_precision(secs: int, nanos: int, p: nat) requires p <= 9, nanos >= 0
    ensures ({ let b = p10((9 - p) as nat); ticks(secs, nanos, p) * b <= ns(secs, nanos) < (ticks(secs, nanos, p) + 1) * b })
{
    lemma_split(p); let (a, b) = (p10(p), p10((9 - p) as nat)); let q = nanos / b;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(nanos, b);
    assert(0 <= nanos % b < b) by (nonlinear_arith) requires b > 0;
    assert((secs * a + q) * b == secs * (a * b) + b * q) by (nonlinear_arith);
    assert((secs * a + q + 1) * b == secs * (a * b) + b * q + b) by (nonlinear_arith);
}
// the instant of a value
pub open spec fn has_instant(v: Value) -> bool { v is DateTime || (v is DateTime64 && v->DateTime64_1.0 <= 9 && chrono_ok(tick_secs(v->DateTime64_0 as int, v->DateTime64_1.0 as nat))) || (v is ChronoDateTime && v->ChronoDateTime_0.nanos < 2_000_000_000) }
pub open spec fn secs_of(v: Value) -> int { match v { Value::DateTime(u, _) => u as int, Value::DateTime64(x, (p, _)) => tick_secs(x as int, p as nat), Value::ChronoDateTime(t) => t.secs as int, _ => 0 } }
pub open spec fn nanos_of(v: Value) -> int { match v { Value::DateTime64(x, (p, _)) => tick_nanos(x as int, p as nat), Value::ChronoDateTime(t) => t.nanos as int, _ => 0 } }
"""

DATECELL = """
// the bounds of DateColumnData's element (StatBuffer + Unmarshal + Marshal + Copy + DateConverter ...)
pub trait DateCell: StatBuffer + Unmarshal<Self> + Marshal + Copy {
    spec fn cell(self) -> SVal;
    spec fn vt() -> SqlType;
    spec fn is(v: Value) -> bool;
    spec fn of(v: Value) -> Self;
    fn to_date(&self, tz: Tz) -> (r: ValueRef<'static>) ensures r.sv() == self.cell(), of_kind(r, Self::vt()), r is DateTime ==> r->DateTime_1 == tz;
    fn get_stamp(source: Value) -> (r: Self) requires Self::is(source) ensures r == Self::of(source);
    fn date_type() -> (r: SqlType) ensures r == Self::vt();
    proof fn wires(self) ensures leaf(Self::vt()), cell_ok(Self::vt(), self.cell()), cell_bytes(Self::vt(), self.cell()) == self.bytes(), self.bytes().len() == Self::mwidth();
}
"""
MAPRW = (r"NaiveDate::from_ymd_opt\(1970, 1, 1\)\s*\.map\(\|(\w+)\| (\w+) \+ Duration::days\((\w+)\.into\(\)\)\)\s*\.unwrap\(\)",
         r"expect_some(match NaiveDate::from_ymd_opt(1970, 1, 1) { Some(\1) => Some(\2.plus_days(\3)), None => None })", "Option::map with a closure as a match; day arithmetic through a stub")
NEVV = (r"let from = SqlType::from\(v\);\s*panic!\([^;]*\)\s*(?=\}|$)", "never() ", "panic branch for another value type: must be unreachable under the precondition")
NEVR = (r"let from = format!\(.*?\);\s*panic!\([^;]*\)\s*(?=\}|$)", "never() ", "panic branch for another value type: must be unreachable under the precondition")
I64F = (r"i64::from\(", "i64_of_(", "lossless i64::from by name")
POW = (r"base10\.pow\(([^()]*)\)", r"ipow(base10, \1)", "i64::pow through a stub")


def conversions(u):
    u.text(SPEC)
    u.text("""
pub trait ToI64 { spec fn v64(self) -> int; fn to64(self) -> (r: i64) ensures r == self.v64(); }
impl ToI64 for u32 { open spec fn v64(self) -> int { self as int } fn to64(self) -> (r: i64) { self as i64 } }
impl ToI64 for i32 { open spec fn v64(self) -> int { self as int } fn to64(self) -> (r: i64) { self as i64 } }
pub fn i64_of_<T: ToI64>(x: T) -> (r: i64) ensures r == x.v64() { x.to64() }
""")
    u.fn(D64, "fn from_datetime", vis="pub", sig=[(r"<T: TimeZone>", "", "time zone parameter dropped: an instant does not depend on it"), (r"DateTime<T>", "AppDateTime", "dependency type")],
         rewrites=[(r"(i64::from\([^;]*?\)) / (base10\.pow\([^;]*?\));", r"i64_div(\1, \2);", "signed division through a stub"), I64F, POW,
                   (r"(time\s*\.timestamp\(\)\s*\.checked_mul\(.*?\))\s*\.and_then\(\|value\| value\.checked_add\(subsec\)\)\s*\.expect\(\"[^\"]*\"\)", r"expect_some(and_add(\1, subsec))", "and_then(checked_add).expect(..) through verified helpers; the panic must be unreachable")],
         hints=[("start", "", "proof { lemma_split(precision as nat); lemma_p10_18(); lemma_ticks(time.secs as int, time.nanos as int, precision as nat); }")],
         spec="requires precision <= 9, time.nanos < 2_000_000_000, in_i64(time.secs * p10(precision as nat)), in_i64(ticks(time.secs as int, time.nanos as int, precision as nat)) ensures r == ticks(time.secs as int, time.nanos as int, precision as nat)")
    u.text("""
pub proof fn lemma_ticks(s: int, n: int, p: nat) requires p <= 9, 0 <= n ensures n / p10((9 - p) as nat) >= 0, n / p10((9 - p) as nat) <= n
{ lemma_split(p); let b = p10((9 - p) as nat); assert(0 <= n / b <= n) by (nonlinear_arith) requires n >= 0, b >= 1; }
""")
    u.fn(D64, "fn to_timestamp", vis="pub", rewrites=[POW, (r"value\.div_euclid\(", "div_euclid(value, ", "i64::div_euclid through a stub"), (r"value\.rem_euclid\(", "rem_euclid(value, ", "i64::rem_euclid through a stub"), (r"subsec / (ipow\([^()]*\))", r"i64_div(subsec, \1)", "signed division through a stub")],
         hints=[("start", "", "proof { if precision <= 9 { lemma_split(precision as nat); theorem_exact(value as int, precision as nat); } else if precision < 19 { lemma_p10(precision as nat); lemma_p10((precision - 9) as nat); lemma_p10_add(9, (precision - 9) as nat); lemma_p10_9(); lemma_sub(value as int, precision as nat); } }")],
         spec="ensures r.0 == secs64(value, precision), precision <= 9 ==> r.0 == tick_secs(value as int, precision as nat) && r.1 == tick_nanos(value as int, precision as nat), r.1 < 1_000_000_000")
    u.text("""
pub open spec fn secs64(v: i64, p: u32) -> int { if p < 19 { tick_secs(v as int, p as nat) } else { 0 } }
pub open spec fn in_range64(v: i64, p: u32) -> bool { chrono_ok(secs64(v, p)) }
pub proof fn lemma_tick(v: i64, p: u32) ensures in_i64(secs64(v, p)), p <= 9 ==> 0 <= tick_nanos(v as int, p as nat) < 1_000_000_000
{ if p < 19 { lemma_p10(p as nat); lemma_q(v as int, p10(p as nat)); } if p <= 9 { theorem_exact(v as int, p as nat); } }
pub proof fn lemma_sub(v: int, p: nat) requires 9 < p < 19
    ensures 0 <= v % p10(p) < p10(p), 0 <= (v % p10(p)) / p10((p - 9) as nat) < 1_000_000_000
{
    lemma_p10(p); lemma_p10((p - 9) as nat); lemma_p10_add(9, (p - 9) as nat); lemma_p10_9(); assert(9 + (p - 9) as nat == p);
    let (a, b) = (p10(p), p10((p - 9) as nat)); let s = v % a;
    assert(0 <= s < a) by (nonlinear_arith) requires s == v % a, a > 0;
    assert(0 <= s / b < 1_000_000_000) by (nonlinear_arith) requires 0 <= s < a, a == 1_000_000_000 * b, b > 0;
}
""")
    u.fn(D64, "fn to_datetime_opt", vis="pub", sig=[(r"DateTime<Tz>", "AppDateTime", "dependency type")],
         hints=[("start", "", "proof { lemma_tick(value, precision); }")],
         spec="""ensures r is Single <==> in_range64(value, precision), !(r is Ambiguous), r is Single ==> r->Single_0.tz == tz,
             precision <= 9 && r is Single ==> r->Single_0.secs == tick_secs(value as int, precision as nat) && r->Single_0.nanos == tick_nanos(value as int, precision as nat)""")
    u.fn(D64, "fn to_datetime", vis="pub", sig=[(r"DateTime<Tz>", "AppDateTime", "dependency type")], hints=[("start", "", "proof { theorem_exact(value as int, precision as nat); lemma_split(precision as nat); lemma_q(value as int, p10(precision as nat)); }")],
         spec="requires precision <= 9, chrono_ok(tick_secs(value as int, precision as nat)) ensures r.secs == tick_secs(value as int, precision as nat), r.nanos == tick_nanos(value as int, precision as nat), r.tz == tz")
    u.text("""
pub proof fn lemma_q(v: int, a: int) requires in_i64(v), a > 0 ensures in_i64(v / a)
{ assert(v >= 0 ==> 0 <= v / a <= v) by (nonlinear_arith) requires a >= 1; assert(v < 0 ==> v <= v / a < 0) by (nonlinear_arith) requires a >= 1; }
""")
    A = "requires %s ensures %s"
    u.fn(V, "impl ^impl From<Value> for AppDate$", "fn from", rename="date_from_value", vis="pub", rewrites=[MAPRW, NEVV], spec="requires v is Date ensures day_of(r) == v->Date_0")
    u.fn(VR, "impl ^impl<'a> From<ValueRef<'a>> for AppDate$", "fn from", rename="date_from_ref", vis="pub", sig=[(r"Self", "AppDate", "Self written out"), (r"ValueRef<'a>", "ValueRef", "")], rewrites=[MAPRW, NEVR], spec="requires value is Date ensures day_of(r) == value->Date_0")
    PRE = ("start", "", "broadcast use axiom_chrono;")
    u.fn(V, "impl ^impl From<Value> for AppDateTime$", "fn from", rename="time_from_value", vis="pub", rewrites=[NEVV, I64F], hints=[PRE],
         spec="requires has_instant(v) ensures r.secs == secs_of(v), r.nanos == nanos_of(v), v is DateTime ==> r.tz == v->DateTime_1, v is DateTime64 ==> r.tz == v->DateTime64_1.1, v is ChronoDateTime ==> r == v->ChronoDateTime_0")
    u.fn(VR, "impl ^impl<'a> From<ValueRef<'a>> for AppDateTime$", "fn from", rename="time_from_ref", vis="pub", sig=[(r"Self", "AppDateTime", "Self written out"), (r"ValueRef<'a>", "ValueRef", "")], rewrites=[NEVR, I64F], hints=[PRE],
         spec="""requires value is DateTime || (value is DateTime64 && value->DateTime64_1.0 <= 9 && chrono_ok(tick_secs(value->DateTime64_0 as int, value->DateTime64_1.0 as nat)))
         ensures value is DateTime ==> r.secs == value->DateTime_0 && r.nanos == 0 && r.tz == value->DateTime_1,
            value is DateTime64 ==> r.secs == tick_secs(value->DateTime64_0 as int, value->DateTime64_1.0 as nat) && r.nanos == tick_nanos(value->DateTime64_0 as int, value->DateTime64_1.0 as nat) && r.tz == value->DateTime64_1.1""")
    u.fn(DC, "trait DateConverter", "fn get_days", vis="pub", spec="requires 0 <= day_of(date) < 0x1_0000 ensures r == day_of(date)",
         rewrites=[I64F, (r"const UNIX_EPOCH_DAY: i64 = ([\d_]+);", r"let UNIX_EPOCH_DAY: i64 = \1;", "local const as a let")])
    u.fn(V, "impl ^impl From<AppDate> for Value$", "fn from", rename="value_from_date", vis="pub", rewrites=[(r"u16::get_days\(", "get_days(", "provided trait method as a function")],
         spec="requires 0 <= day_of(v) < 0x1_0000 ensures r == Value::Date(day_of(v) as u16)")
    u.fn(V, "impl ^impl From<AppDateTime> for Value$", "fn from", rename="value_from_time", vis="pub", spec="ensures r == Value::ChronoDateTime(v)")


def date_columns(u):
    u.text(DATECELL)
    lem = N.NUMCELL[N.NUMCELL.index("pub open spec fn leaf"):]
    lem = lem[:lem.rindex("#[verifier::external_body] pub fn never")]
    u.text(re.sub(r"\bNumCell\b", "DateCell", lem))
    for t, k, vt, is_, of in (("u16", 2, "SqlType::Date", "v is Date", "v->Date_0"),
                              ("u32", 4, "SqlType::DateTime(DateTimeType::DateTime32)", "has_instant(v) && 0 <= secs_of(v) < 0x1_0000_0000", "secs_of(v) as u32")):
        I = (DC, f"impl ^impl DateConverter for {t}$")
        u.text(f"""impl DateCell for {t} {{
    open spec fn cell(self) -> SVal {{ SVal::Num(self as int) }}
    open spec fn vt() -> SqlType {{ {vt} }}
    open spec fn is(v: Value) -> bool {{ {is_} }}
    open spec fn of(v: Value) -> {t} {{ {of} }}
    proof fn wires(self) {{ lemma_p256(); lemma_le_len(twos(self as int, {k}), {k}); }}""")
        u.fn(*I, "fn to_date")
        u.fn(*I, "fn get_stamp", rewrites=[(r"Self::get_days\(", "get_days(", "provided trait method as a function"), (r"NaiveDate::from\(", "date_from_value(", "From<Value> for NaiveDate by name"), (r"DateTime::<Tz>::from\(", "time_from_value(", "From<Value> for DateTime<Tz> by name")])
        u.fn(*I, "fn date_type")
        u.text("}")
    u.text("""pub struct DateColumnData<T: DateCell> { pub data: List<T>, pub tz: Tz }
impl<T: DateCell> DateColumnData<T> {
    pub open spec fn nc(&self) -> Seq<SVal> { ncells(self.data@) }""")
    IN = (DA, r"impl ^impl<T> DateColumnData<T>")
    IV = (DA, r"impl ^impl<T> ColumnData for DateColumnData<T>")
    u.fn(*IN, "fn with_capacity", vis="pub", spec="ensures r.data@ == Seq::<T>::empty(), r.tz == timezone")
    u.fn(*IN, "fn load", vis="pub", rewrites=[(r"unsafe \{\s*data\.set_len\(size\);\s*\}", "set_len(&mut data, size);", "set_len through a stub"), (r"data\.as_mut\(\)", "List::as_mut(&mut data)", "AsMut<[u8]> of List through its contract")],
         spec="ensures same_end(*final(reader), *old(reader)), r matches Ok(c) ==> c.data@.len() == size && c.tz == tz && took_leaf(T::vt(), c.nc(), old(reader).rest(), final(reader).rest())",
         hints=[("before", r"Ok\(DateColumnData", """proof {
            let n = size as int; let r0 = old(reader).rest();
            lemma_num_cat(data@, 0, n); assert(data@.subrange(0, n) =~= data@); assert(ncells(data@).subrange(0, n) =~= ncells(data@));
            assert(r0.take(r0.len() - reader.rest().len()) =~= elems(data@)); assert(r0.skip(r0.len() - reader.rest().len()) =~= reader.rest());
        }""")])
    u.text("""}
impl<T: DateCell> ColumnData for DateColumnData<T> {
    open spec fn wf(&self) -> bool { true }
    open spec fn ty(&self) -> SqlType { T::vt() }
    open spec fn cells(&self) -> Seq<SVal> { self.nc() }
    open spec fn dict(&self) -> bool { true }
    open spec fn takes(&self, v: Value) -> bool { T::is(v) }
    // the same day, or the same instant to the second
    open spec fn stored(&self, v: Value) -> SVal { T::of(v).cell() }""")
    u.fn(*IV, "fn sql_type")
    u.fn(*IV, "fn save", hints=[("end", "", "proof { lemma_leaf_wrote(T::vt(), self.cells().subrange(start as int, end as int), old(encoder)@, elems(self.data@.subrange(start as int, end as int))); }"),
                                ("start", "", "proof { lemma_num_cat(self.data@, start as int, end as int); lemma_elems_cut(self.data@, start as int, end as int); wires_any::<T>(); }")],
         rewrites=[(r"self\.data\.as_ref\(\)", "List::as_ref(&self.data)", "AsRef<[u8]> of List through its contract")])
    u.fn("src/types/column/column_data.rs", "trait ColumnData", "fn save_keys", hints=[("start", "", "proof { wires_any::<T>(); assert(self.cells().subrange(0, self.cells().len() as int) =~= self.cells()); }")])
    u.fn(*IV, "fn len")
    u.fn(*IV, "fn push", hints=[("end", "", "proof { wires_any::<T>(); assert(self.cells() =~= old(self).cells().push(old(self).stored(value))); }")])
    u.fn(*IV, "fn at")
    u.text("}")
    u.fn("src/types/column/numeric.rs", "fn save_data", vis="pub", sig=[(r"<T>", "<T: Marshal>", "bound added so that the element width can be specified")],
         rewrites=[(r"mem::size_of::<T>\(\)", "msize::<T>()", "size_of through a stub")], hints=[("start", "", "proof { slice_len(data); }")],
         spec="""requires 0 <= start * T::mwidth() <= end * T::mwidth() <= data@.len() ensures final(encoder)@ == old(encoder)@ + data@.subrange(start * T::mwidth(), end * T::mwidth())""")
    u.text("""
pub open spec fn took_leaf(t: SqlType, cells: Seq<SVal>, old: Seq<u8>, new: Seq<u8>) -> bool {
    new.len() <= old.len() && new == old.skip(old.len() - new.len()) && all_ok(t, cells) && old.take(old.len() - new.len()) == cat(t, cells)
}
pub proof fn lemma_leaf_wrote(t: SqlType, cells: Seq<SVal>, o: Seq<u8>, b: Seq<u8>)
    requires leaf(t), all_ok(t, cells), b == cat(t, cells) ensures wrote(t, cells, o, o + b)
{ assert((o + b).take(o.len() as int) =~= o); assert((o + b).skip(o.len() as int) =~= b); }
pub proof fn wires_any<T: DateCell>() ensures leaf(T::vt()) { let v: T = arbitrary(); v.wires(); }
""")
    K.clone_instance(u, *IV, "<T: DateCell> DateColumnData<T>")
    u.pieces[-3] = "impl<T: DateCell> DateColumnData<T> {"
    u.fn(DA, "impl ^impl ColumnFrom for Vec<NaiveDate>$", "fn column_from", rename="column_from_dates", vis="pub", sig=[(r"<W: ColumnWrapper>", "", "wrapper parameter dropped"), (r"source: Self", "source: Vec<NaiveDate>", "Self written out"), (r"-> W::Wrapper", "-> DateColumnData<u16>", "")],
         rewrites=[(r"W::wrap\(column\)", "column", "the column itself, before it is boxed"), (r"u16::get_days\(", "get_days(", "provided trait method as a function"), (r"\*DEFAULT_TZ", "default_tz()", "lazy static through a stub"), (r"for s in source \{", "for i_ in 0..source.len() { let s = source[i_];", "by-value iteration of a Vec as indexing")],
         spec="requires days_ok(source@) ensures r.data@.len() == source@.len(), forall|i: int| 0 <= i < source@.len() ==> (#[trigger] r.cells()[i]) == SVal::Num(day_of(source@[i]))",
         loops=[dict(head=r"^for i_ in 0\.\.source\.len\(\)$", spec="invariant days_ok(source@), data@.len() == i_, forall|i: int| 0 <= i < i_ ==> (#[trigger] data@[i]) as int == day_of(source@[i])", start="proof { assert(day_ok(source@[i_ as int])); }")])
    u.text("""
impl Copy for NaiveDate {}
impl Clone for NaiveDate { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
pub open spec fn day_ok(d: NaiveDate) -> bool { 0 <= day_of(d) < 0x1_0000 }
pub open spec fn days_ok(d: Seq<NaiveDate>) -> bool { forall|i: int| 0 <= i < d.len() ==> day_ok(#[trigger] d[i]) }
#[verifier::external_body] pub fn default_tz() -> (r: Tz) { unimplemented!() }
""")


def dt64(u):
    I = (D64, "impl ^impl ColumnData for DateTime64ColumnData$")
    IN = (D64, "impl ^impl DateTime64ColumnData$")
    u.text("""pub struct DateTime64ColumnData { pub data: List<i64>, pub params: (u32, Tz) }
pub open spec fn cells64(d: Seq<i64>) -> Seq<SVal> { Seq::new(d.len(), |i: int| SVal::Num(d[i] as int)) }
pub open spec fn t64(p: u32, tz: Tz) -> SqlType { SqlType::DateTime(DateTimeType::DateTime64(p, tz)) }
pub proof fn lemma_64(d: Seq<i64>, p: u32, tz: Tz)
    ensures cat(t64(p, tz), cells64(d)) == elems(d), all_ok(t64(p, tz), cells64(d)), elems(d).len() == 8 * d.len() decreases d.len()
{
    lemma_p256();
    if d.len() > 0 {
        lemma_64(d.drop_last(), p, tz);
        assert(cells64(d).drop_last() =~= cells64(d.drop_last()));
        lemma_le_len(twos(d.last() as int, 8), 8);
        assert(d.last().bytes() == le(twos(d.last() as int, 8), 8));
    }
}
impl DateTime64ColumnData {""")
    u.fn(*IN, "fn with_capacity", vis="pub", spec="ensures r.data@ == Seq::<i64>::empty(), r.params == (precision, timezone)")
    u.fn(*IN, "fn load", vis="pub", rewrites=[(r"unsafe \{\s*data\.set_len\(size\);\s*\}", "set_len(&mut data, size);", "set_len through a stub"), (r"data\.as_mut\(\)", "List::as_mut(&mut data)", "AsMut<[u8]> of List through its contract")],
         spec="requires size * 8 <= usize::MAX ensures same_end(*final(reader), *old(reader)), r matches Ok(c) ==> c.data@.len() == size && c.params == (precision, tz) && took(c.ty(), c.cells(), old(reader).rest(), final(reader).rest())",
         hints=[("before", r"Ok\(DateTime64ColumnData", """proof { let r0 = old(reader).rest(); lemma_64(data@, precision, tz);
            assert(r0.take(r0.len() - reader.rest().len()) =~= elems(data@)); assert(r0.skip(r0.len() - reader.rest().len()) =~= reader.rest()); }""")])
    u.text("""}
impl ColumnData for DateTime64ColumnData {
    open spec fn wf(&self) -> bool { self.params.0 <= 9 }
    open spec fn ty(&self) -> SqlType { t64(self.params.0, self.params.1) }
    open spec fn cells(&self) -> Seq<SVal> { cells64(self.data@) }
    open spec fn dict(&self) -> bool { true }
    open spec fn takes(&self, v: Value) -> bool { has_instant(v) && in_i64(secs_of(v) * p10(self.params.0 as nat)) && in_i64(ticks(secs_of(v), nanos_of(v), self.params.0 as nat)) }
    // the same instant to the precision of the column
    open spec fn stored(&self, v: Value) -> SVal { SVal::Num(ticks(secs_of(v), nanos_of(v), self.params.0 as nat)) }""")
    u.fn(*I, "fn sql_type")
    u.fn(*I, "fn save", loops=[dict(head=r"^for i in start\.\.end$", spec="invariant start <= end <= self.data@.len(), encoder@ == old(encoder)@ + elems(self.data@.subrange(start as int, i as int))",
            start="let ghost e0 = encoder@;", end="proof { let d = self.data@.subrange(start as int, i + 1); assert(d.drop_last() =~= self.data@.subrange(start as int, i as int)); assert(encoder@ =~= old(encoder)@ + elems(d)); }",
            before="proof { assert(self.data@.subrange(start as int, start as int) =~= Seq::<i64>::empty()); assert(encoder@ =~= old(encoder)@ + elems(self.data@.subrange(start as int, start as int))); }")],
         hints=[("end", "", "proof { let d = self.data@.subrange(start as int, end as int); lemma_64(d, self.params.0, self.params.1); assert(cells64(d) =~= self.cells().subrange(start as int, end as int)); lemma_leaf_wrote(self.ty(), cells64(d), old(encoder)@, elems(d)); }")])
    u.fn("src/types/column/column_data.rs", "trait ColumnData", "fn save_keys", hints=[("start", "", "proof { assert(self.cells().subrange(0, self.cells().len() as int) =~= self.cells()); }")])
    u.fn(*I, "fn len")
    u.fn(*I, "fn push", rewrites=[(r"DateTime::<Tz>::from\(", "time_from_value(", "From<Value> for DateTime<Tz> by name")], hints=[("start", "", "proof { if value is DateTime64 { theorem_exact(value->DateTime64_0 as int, value->DateTime64_1.0 as nat); } }"), ("end", "", "; proof { assert(self.cells() =~= old(self).cells().push(old(self).stored(value))); }")])
    u.fn(*I, "fn at")
    u.text("}")
    K.clone_instance(u, *I, "DateTime64ColumnData")


def chrono(u):
    IC = (CH, "impl ^impl ColumnData for ChronoDateTimeColumnData$")
    A = (CH, "impl ^impl ColumnData for ChronoDateTimeAdapter$")
    u.text("""pub struct ChronoDateTimeColumnData { pub data: Vec<AppDateTime>, pub tz: Tz }
impl ChronoDateTimeColumnData {""")
    u.fn(*IC, "fn len", vis="pub", spec="ensures r == self.data@.len()")
    u.fn(*IC, "fn push", vis="pub", rewrites=[(r"value\.into\(\)", "time_from_value(value)", "From<Value> for DateTime<Tz> by name"), (r"DateTime<Tz>", "AppDateTime", "dependency type")],
         spec="requires has_instant(value) ensures final(self).data@.len() == old(self).data@.len() + 1, final(self).data@.drop_last() == old(self).data@, final(self).data@.last().secs == secs_of(value), final(self).data@.last().nanos == nanos_of(value), final(self).tz == old(self).tz",
         hints=[("end", "", "proof { assert(self.data@.drop_last() =~= old(self).data@); }")])
    u.fn(*IC, "fn at", vis="pub", spec="requires index < self.data@.len(), 0 <= self.data@[index as int].secs < 0x1_0000_0000 ensures r == ValueRef::DateTime(self.data@[index as int].secs as u32, self.data@[index as int].tz)")
    u.text("""}
// the slice of instants behind a column of type DateTime(Chrono) (trusted: unsafe pointer out of get_internal)
pub uninterp spec fn instants(c: ArcColumnData) -> Seq<AppDateTime>;
#[verifier::external_body] pub fn get_date_slice(c: &ArcColumnData) -> (r: Result<&[AppDateTime]>) requires c.wf(), c.ty() == SqlType::DateTime(DateTimeType::Chrono) ensures r is Ok, r->Ok_0@ == instants(*c), r->Ok_0@.len() == c.cells().len() { unimplemented!() }
#[verifier::external_body] pub fn is_chrono_datetime(c: &ArcColumnData) -> (r: bool) requires c.wf() ensures r == (c.ty() == SqlType::DateTime(DateTimeType::Chrono)) { unimplemented!() }
pub fn ok_of<T>(r: Result<T>) -> (x: T) requires r is Ok ensures r == Result::<T>::Ok(x) { match r { Ok(x) => x, Err(_) => never() } }
pub struct ChronoDateTimeAdapter { pub column: ArcColumnData, pub dst_type: SqlType }
// what instant t becomes in a column of type d
pub open spec fn chrono_cell(t: AppDateTime, d: SqlType) -> SVal { match d { SqlType::DateTime(DateTimeType::DateTime64(p, _)) => SVal::Num(ticks(t.secs as int, t.nanos as int, p as nat)), _ => SVal::Num(t.secs as int) } }
pub open spec fn chrono_fits(t: AppDateTime, d: SqlType) -> bool { t.nanos < 2_000_000_000 && match d {
    SqlType::DateTime(DateTimeType::DateTime64(p, _)) => p <= 9 && in_i64(t.secs * p10(p as nat)) && in_i64(ticks(t.secs as int, t.nanos as int, p as nat)),
    SqlType::DateTime(DateTimeType::DateTime32) => 0 <= t.secs < 0x1_0000_0000, _ => false } }
pub open spec fn chrono_cells(ts: Seq<AppDateTime>, d: SqlType) -> Seq<SVal> { Seq::new(ts.len(), |i: int| chrono_cell(ts[i], d)) }
pub open spec fn fits_from(ts: Seq<AppDateTime>, d: SqlType) -> bool { forall|i: int| 0 <= i < ts.len() ==> chrono_fits(#[trigger] ts[i], d) }
impl ChronoDateTimeAdapter {""")
    INV = "invariant start <= end <= dates@.len(), dates@ == instants(self.column), fits_from(dates@, self.dst_type), %s, encoder@ == old(encoder)@ + cat(self.dst_type, chrono_cells(dates@, self.dst_type).subrange(start as int, k_ as int)), all_ok(self.dst_type, chrono_cells(dates@, self.dst_type).subrange(start as int, k_ as int))"
    BEF = "proof { let c = chrono_cells(dates@, self.dst_type); assert(c.subrange(start as int, start as int) =~= Seq::<SVal>::empty()); assert(encoder@ =~= old(encoder)@ + cat(self.dst_type, c.subrange(start as int, start as int))); }"
    ST = "let ghost e0 = encoder@; proof { assert(chrono_fits(dates@[k_ as int], self.dst_type)); lemma_p256(); }"
    EN = """proof { let c = chrono_cells(dates@, self.dst_type); let c0 = c.subrange(start as int, k_ as int); let c1 = c.subrange(start as int, k_ + 1);
        assert(c1.drop_last() =~= c0); assert(c1.last() == c[k_ as int]); assert(encoder@ =~= e0 + cell_bytes(self.dst_type, c1.last())); assert(encoder@ =~= old(encoder)@ + cat(self.dst_type, c1));
        assert(cell_ok(self.dst_type, c1.last())); assert forall|j: int| 0 <= j < c1.len() implies cell_ok(self.dst_type, #[trigger] c1[j]) by { if j < c0.len() { assert(c1[j] == c0[j]); assert(cell_ok(self.dst_type, c0[j])); } } }"""
    H = r"^for k_ in start\.\.end$"
    u.fn(*A, "fn sql_type", vis="pub", spec="ensures r == self.dst_type")
    u.fn(*A, "fn len", vis="pub", spec="requires self.column.wf() ensures r == self.column.cells().len()")
    u.fn(*A, "fn save", vis="pub", rewrites=[(r"is_chrono_datetime\(self\.column\.as_ref\(\)\)", "is_chrono_datetime(&self.column)", "deref of Arc"), (r'panic!\("[^"]*", [^;]*\);', "never();", "panic branch: must be unreachable under the precondition"),
        (r"get_date_slice\(self\.column\.as_ref\(\)\)\.unwrap\(\)", "ok_of(get_date_slice(&self.column))", "unwrap of Result through a verified helper"), (r"for date in &dates\[start\.\.end\] \{", "for k_ in start..end { let date = &dates[k_];", "iteration over a subslice as indexing"), (r"_ => unimplemented!\(\),", "_ => never(),", "unimplemented!() must be unreachable")],
        loops=[dict(head=H, spec=INV % "self.dst_type == t64(precision, tz)", before=BEF, start=ST, end=EN), dict(head=H, spec=INV % "self.dst_type == SqlType::DateTime(DateTimeType::DateTime32)", before=BEF, start=ST, end=EN)],
        hints=[("end", "", "proof { let c = chrono_cells(dates@, self.dst_type).subrange(start as int, end as int); lemma_leaf_wrote(self.dst_type, c, old(encoder)@, cat(self.dst_type, c)); }")],
        spec="""requires self.column.wf(), self.column.ty() == SqlType::DateTime(DateTimeType::Chrono), start <= end <= self.column.cells().len(), self.dst_type is DateTime, !(self.dst_type->DateTime_0 is Chrono), fits_from(instants(self.column), self.dst_type), instants(self.column).len() == self.column.cells().len()
        ensures wrote(self.dst_type, chrono_cells(instants(self.column), self.dst_type).subrange(start as int, end as int), old(encoder)@, final(encoder)@)""")
    u.text("}")


def build():
    u = K.prelude("dates", ints=("u8", "u16", "u32", "i64", "u64"))
    K.lists(u)
    conversions(u)
    date_columns(u)
    dt64(u)
    chrono(u)
    u.text("} fn main() {}")
    return u
