"""Equality, hashing and conversions of values (P23)."""
import re
from . import cols as K, decimals as DM, common as C

V = "src/types/value.rs"
VR = "src/types/value_ref.rs"

INTK = ["UInt8", "UInt16", "UInt32", "UInt64", "UInt128", "Int8", "Int16", "Int32", "Int64", "Int128"]

LEAF = DM.SPEC[:DM.SPEC.index("// ---- printing")].replace("""#[verifier::external_body] pub fn feed_i64(x: i64, state: &mut Hs) ensures final(state).fed() == old(state).fed().push(x as int) { unimplemented!() }
#[verifier::external_body] pub fn feed_u8(x: u8, state: &mut Hs) ensures final(state).fed() == old(state).fed().push(x as int) { unimplemented!() }
""", "") + """
impl Hs { #[verifier::external_body] pub fn write_u8(&mut self, x: u8) ensures final(self).fed() == old(self).fed() + seq![x as int] { unimplemented!() } }
// ---- equality and hashing of the parts (std, chrono and derived implementations; Decimal: see the decimals unit) ----
pub trait Same { spec fn eqs(&self, o: &Self) -> bool; fn same_(&self, o: &Self) -> (r: bool) ensures r == self.eqs(o); }
pub trait Feeds { spec fn feeds(&self) -> Seq<int>; fn hash(&self, state: &mut Hs) ensures final(state).fed() == old(state).fed() + self.feeds(); }
pub uninterp spec fn feed_bytes(b: Seq<u8>) -> Seq<int>;
pub uninterp spec fn feed_instant(secs: i64, nanos: u32) -> Seq<int>;
// IEEE equality: symmetric and transitive, reflexive except for NaN; -0.0 == 0.0, and x + 0.0 has the same bits for both
pub uninterp spec fn eq32(a: f32, b: f32) -> bool;
pub uninterp spec fn eq64(a: f64, b: f64) -> bool;
pub uninterp spec fn nan32(a: f32) -> bool;
pub uninterp spec fn nan64(a: f64) -> bool;
pub uninterp spec fn zbits32(a: f32) -> u32;
pub uninterp spec fn zbits64(a: f64) -> u64;
pub uninterp spec fn bits32(a: f32) -> u32;
pub uninterp spec fn bits64(a: f64) -> u64;
pub broadcast axiom fn axiom_f32(a: f32, b: f32) ensures #[trigger] eq32(a, b) == eq32(b, a), a == b && !nan32(a) ==> eq32(a, b), eq32(a, b) ==> zbits32(a) == zbits32(b);
pub broadcast axiom fn axiom_f64(a: f64, b: f64) ensures #[trigger] eq64(a, b) == eq64(b, a), a == b && !nan64(a) ==> eq64(a, b), eq64(a, b) ==> zbits64(a) == zbits64(b);
pub broadcast axiom fn axiom_f32_trans(a: f32, b: f32, c: f32) ensures #[trigger] eq32(a, b) && #[trigger] eq32(b, c) ==> eq32(a, c);
pub broadcast axiom fn axiom_f64_trans(a: f64, b: f64, c: f64) ensures #[trigger] eq64(a, b) && #[trigger] eq64(b, c) ==> eq64(a, c);
pub trait FloatBits { type B; spec fn zb(self) -> Self::B; spec fn pb(self) -> Self::B; fn zero_bits(self) -> (r: Self::B) ensures r == self.zb(); fn plain_bits(self) -> (r: Self::B) ensures r == self.pb(); }
impl FloatBits for f32 { type B = u32; open spec fn zb(self) -> u32 { zbits32(self) } open spec fn pb(self) -> u32 { bits32(self) } #[verifier::external_body] fn zero_bits(self) -> u32 { unimplemented!() } #[verifier::external_body] fn plain_bits(self) -> u32 { unimplemented!() } }
impl FloatBits for f64 { type B = u64; open spec fn zb(self) -> u64 { zbits64(self) } open spec fn pb(self) -> u64 { bits64(self) } #[verifier::external_body] fn zero_bits(self) -> u64 { unimplemented!() } #[verifier::external_body] fn plain_bits(self) -> u64 { unimplemented!() } }
""" + "".join(f"""
impl Same for {t} {{ open spec fn eqs(&self, o: &{t}) -> bool {{ {e} }} #[verifier::external_body] fn same_(&self, o: &{t}) -> bool {{ unimplemented!() }} }}""" for t, e in
    [(t, "*self == *o") for t in ("bool", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "[u8; 4]", "[u8; 16]", "SqlType", "Enum8", "Enum16", "(i64, u32)")] +
    [("Arc<Vec<u8>>", "self@ == o@"), ("[u8]", "self@ == o@"), ("Vec<(String, i8)>", "self@ == o@"), ("Vec<(String, i16)>", "self@ == o@"), ("f32", "eq32(*self, *o)"), ("f64", "eq64(*self, *o)"),
     ("AppDateTime", "self.secs == o.secs && self.nanos == o.nanos"), ("Decimal", "same_number(self.underlying as int, self.scale as nat, o.underlying as int, o.scale as nat)"),
     ("LocalResult<AppDateTime>", "match (*self, *o) { (LocalResult::Single(a), LocalResult::Single(b)) => a.secs == b.secs && a.nanos == b.nanos, (LocalResult::None, LocalResult::None) => true, (LocalResult::Ambiguous(a, b), LocalResult::Ambiguous(c, d)) => a.secs == c.secs && a.nanos == c.nanos && b.secs == d.secs && b.nanos == d.nanos, _ => false }")]) + "".join(f"""
impl Feeds for {t} {{ open spec fn feeds(&self) -> Seq<int> {{ {e} }} #[verifier::external_body] fn hash(&self, state: &mut Hs) {{ unimplemented!() }} }}""" for t, e in
    [(t, "seq![*self as int]") for t in ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128")] +
    [("bool", "seq![if *self { 1 } else { 0 }]"), ("[u8; 4]", "feed_bytes(self@)"), ("[u8; 16]", "feed_bytes(self@)"), ("Arc<Vec<u8>>", "feed_bytes(self@)"), ("[u8]", "feed_bytes(self@)"),
     ("(i64, u32)", "seq![self.0 as int, self.1 as int]"), ("Enum8", "seq![self.0 as int]"), ("Enum16", "seq![self.0 as int]"), ("AppDateTime", "feed_instant(self.secs, self.nanos)"),
     ("Decimal", "({ let (u, s) = reduced(self.underlying as int, self.scale as nat); seq![u, s as int] })")]) + """
// chrono (assumed): an instant in seconds since 1970-01-01 UTC with a zone to show it in; every u32 of seconds is representable
pub enum LocalResult<T> { None, Single(T), Ambiguous(T, T) }
impl<T> LocalResult<T> { pub fn unwrap(self) -> (r: T) requires self is Single ensures LocalResult::Single(r) == self { match self { LocalResult::Single(x) => x, _ => never() } } }
impl Tz {
    #[verifier::external_body] pub fn timestamp_opt(&self, secs: i64, nanos: u32) -> (r: LocalResult<AppDateTime>) requires nanos < 1_000_000_000
        ensures 0 <= secs < 0x1_0000_0000 ==> r == LocalResult::Single(AppDateTime { secs, nanos, tz: *self }) { unimplemented!() }
}
pub fn i64_of_(x: u32) -> (r: i64) ensures r == x { x as i64 }
// seconds and nanoseconds of ticks: see the dates unit; here only that it is a function
pub uninterp spec fn stamp(v: i64, p: u32) -> (i64, u32);
#[verifier::external_body] pub fn to_timestamp(v: i64, p: u32) -> (r: (i64, u32)) ensures r == stamp(v, p) { unimplemented!() }
"""

ALT = {"Value": dict(fn="v", bytes="a@ == b@", dt64="p.0 == q.0 && a == b", chrono=True, feed64="seq![a as int, p.0 as int]"),
       "ValueRef": dict(fn="r", bytes="a@ == b@", dt64="stamp(a, p.0) == stamp(b, q.0)", chrono=False, feed64="({ let s = stamp(a, p.0); seq![s.0 as int, s.1 as int] })")}


def model(t):
    """equality, hash input and 'has no NaN' of Value / ValueRef, and the theorems about them"""
    x, a = ALT[t]["fn"], ALT[t]
    L = "<'static>" if t == "ValueRef" else ""
    G = "<'a>" if t == "ValueRef" else ""
    T = t + G
    eq = [f"({t}::Bool(a), {t}::Bool(b)) => a == b,"] + [f"({t}::{k}(a), {t}::{k}(b)) => a == b," for k in INTK + ["Date", "Ipv4", "Ipv6", "Uuid"]]
    fd = [f"{t}::Bool(a) => seq![if a {{ 1 }} else {{ 0 }}],"] + [f"{t}::{k}(a) => seq![a as int]," for k in INTK + ["Date"]] + [f"{t}::{k}(a) => feed_bytes(a@)," for k in ("Ipv4", "Ipv6", "Uuid")]
    if a["chrono"]:
        eq.append("(Value::ChronoDateTime(a), Value::ChronoDateTime(b)) => a.secs == b.secs && a.nanos == b.nanos,")
        fd.append("Value::ChronoDateTime(a) => feed_instant(a.secs, a.nanos),")
    m = f"""
// ---- {t} ----
pub uninterp spec fn meq_{x}{G}(a: HashMap<{T}, {T}>, b: HashMap<{T}, {T}>) -> bool;     // PartialEq of std HashMap
pub open spec fn eq_{x}{G}(a: {T}, b: {T}) -> bool decreases a {{
    match (a, b) {{
        {' '.join(eq)}
        ({t}::String(a), {t}::String(b)) => {a['bytes']},
        ({t}::Float32(a), {t}::Float32(b)) => eq32(a, b), ({t}::Float64(a), {t}::Float64(b)) => eq64(a, b),
        ({t}::DateTime(a, _), {t}::DateTime(b, _)) => a == b,
        ({t}::DateTime64(a, p), {t}::DateTime64(b, q)) => {a['dt64']},
        ({t}::Nullable(Either::Left(s)), {t}::Nullable(Either::Left(u))) => *s == *u,
        ({t}::Nullable(Either::Right(a)), {t}::Nullable(Either::Right(b))) => eq_{x}(*a, *b),
        ({t}::Array(s, a), {t}::Array(u, b)) => *s == *u && a@.len() == b@.len() && forall|i: int| 0 <= i < a@.len() ==> eq_{x}(#[trigger] a@[i], b@[i]),
        ({t}::Decimal(a), {t}::Decimal(b)) => same_number(a.underlying as int, a.scale as nat, b.underlying as int, b.scale as nat),
        ({t}::Enum8(n, a), {t}::Enum8(o, b)) => n@ == o@ && a == b, ({t}::Enum16(n, a), {t}::Enum16(o, b)) => n@ == o@ && a == b,
        ({t}::Map(k1, v1, a), {t}::Map(k2, v2, b)) => *k1 == *k2 && *v1 == *v2 && meq_{x}(*a, *b),
        _ => false,
    }}
}}
pub open spec fn eqs_{x}{G}(a: Seq<{T}>, b: Seq<{T}>) -> bool {{ a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> eq_{x}(#[trigger] a[i], b[i]) }}
pub open spec fn feed_{x}{G}(v: {T}) -> Seq<int> decreases v, 1nat, 0int {{
    match v {{
        {' '.join(fd)}
        {t}::String(a) => feed_bytes(a@),
        {t}::Float32(a) => seq![zbits32(a) as int], {t}::Float64(a) => seq![zbits64(a) as int],
        {t}::DateTime(a, _) => seq![a as int],
        {t}::DateTime64(a, p) => {a['feed64']},
        {t}::Nullable(Either::Left(_)) => seq![0int], {t}::Nullable(Either::Right(b)) => feed_{x}(*b),
        {t}::Array(_, a) => seq![a@.len() as int] + feeds_{x}(a@, a@.len() as int),
        {t}::Decimal(d) => ({{ let (u, s) = reduced(d.underlying as int, d.scale as nat); seq![u, s as int] }}),
        {t}::Enum8(_, e) => seq![e.0 as int], {t}::Enum16(_, e) => seq![e.0 as int],
        {t}::Map(_, _, m) => seq![m.es@.len() as int],
    }}
}}
pub open spec fn feeds_{x}{G}(a: Seq<{T}>, n: int) -> Seq<int> decreases a, 0nat, n {{ if n <= 0 || n > a.len() {{ Seq::empty() }} else {{ feeds_{x}(a, n - 1) + feed_{x}(a[n - 1]) }} }}
pub open spec fn no_nan_{x}{G}(v: {T}) -> bool decreases v {{
    match v {{
        {t}::Float32(a) => !nan32(a), {t}::Float64(a) => !nan64(a), {t}::Nullable(Either::Right(b)) => no_nan_{x}(*b),
        {t}::Array(_, a) => forall|i: int| 0 <= i < a@.len() ==> no_nan_{x}(#[trigger] a@[i]),
        {t}::Map(_, _, m) => forall|i: int| 0 <= i < m.es@.len() ==> no_nan_{x}((#[trigger] m.es@[i]).0) && no_nan_{x}(m.es@[i].1),
        _ => true,
    }}
}}
// equality of std HashMap is an equivalence relation on maps without NaN, and equal maps have the same size (assumed)
pub broadcast axiom fn axiom_map_{x}{G}(a: HashMap<{T}, {T}>, b: HashMap<{T}, {T}>)
    ensures #[trigger] meq_{x}(a, b) == meq_{x}(b, a), meq_{x}(a, b) ==> a.es@.len() == b.es@.len(),
        a.es@.len() == b.es@.len() && (forall|i: int| 0 <= i < a.es@.len() ==> eq_{x}((#[trigger] a.es@[i]).0, b.es@[i].0) && eq_{x}(a.es@[i].1, b.es@[i].1)) ==> meq_{x}(a, b);
pub broadcast axiom fn axiom_map_trans_{x}{G}(a: HashMap<{T}, {T}>, b: HashMap<{T}, {T}>, c: HashMap<{T}, {T}>)
    ensures #[trigger] meq_{x}(a, b) && #[trigger] meq_{x}(b, c) ==> meq_{x}(a, c);
pub proof fn theorem_reflexive_{x}{G}(v: {T}) requires no_nan_{x}(v) ensures eq_{x}(v, v) decreases v
{{
    broadcast use {{axiom_f32, axiom_f64, axiom_map_{x}}};
    match v {{
        {t}::Nullable(Either::Right(b)) => {{ theorem_reflexive_{x}(*b); }}
        {t}::Array(_, a) => {{ assert forall|i: int| 0 <= i < a@.len() implies eq_{x}(#[trigger] a@[i], a@[i]) by {{ theorem_reflexive_{x}(a@[i]); }} }}
        {t}::Map(_, _, m) => {{ assert forall|i: int| 0 <= i < m.es@.len() implies eq_{x}((#[trigger] m.es@[i]).0, m.es@[i].0) && eq_{x}(m.es@[i].1, m.es@[i].1) by {{ theorem_reflexive_{x}(m.es@[i].0); theorem_reflexive_{x}(m.es@[i].1); }} }}
        _ => {{}}
    }}
}}
pub proof fn theorem_symmetric_{x}{G}(a: {T}, b: {T}) requires eq_{x}(a, b) ensures eq_{x}(b, a) decreases a
{{
    broadcast use {{axiom_f32, axiom_f64, axiom_map_{x}}};
    match (a, b) {{
        ({t}::Nullable(Either::Right(p)), {t}::Nullable(Either::Right(q))) => {{ theorem_symmetric_{x}(*p, *q); }}
        ({t}::Array(_, p), {t}::Array(_, q)) => {{ assert forall|i: int| 0 <= i < q@.len() implies eq_{x}(#[trigger] q@[i], p@[i]) by {{ theorem_symmetric_{x}(p@[i], q@[i]); }} }}
        ({t}::Map(_, _, p), {t}::Map(_, _, q)) => {{ assert(meq_{x}(*p, *q)); }}
        _ => {{}}
    }}
}}
pub proof fn theorem_transitive_{x}{G}(a: {T}, b: {T}, c: {T}) requires eq_{x}(a, b), eq_{x}(b, c) ensures eq_{x}(a, c) decreases a
{{
    broadcast use {{axiom_f32_trans, axiom_f64_trans, axiom_map_trans_{x}}};
    match (a, b, c) {{
        ({t}::Nullable(Either::Right(p)), {t}::Nullable(Either::Right(q)), {t}::Nullable(Either::Right(r))) => {{ theorem_transitive_{x}(*p, *q, *r); }}
        ({t}::Array(_, p), {t}::Array(_, q), {t}::Array(_, r)) => {{ assert forall|i: int| 0 <= i < p@.len() implies eq_{x}(#[trigger] p@[i], r@[i]) by {{ theorem_transitive_{x}(p@[i], q@[i], r@[i]); }} }}
        ({t}::Decimal(p), {t}::Decimal(q), {t}::Decimal(r)) => {{ lemma_same_trans(p.underlying as int, p.scale as nat, q.underlying as int, q.scale as nat, r.underlying as int, r.scale as nat); }}
        ({t}::Map(_, _, p), {t}::Map(_, _, q), {t}::Map(_, _, r)) => {{ assert(meq_{x}(*p, *q) && meq_{x}(*q, *r)); }}
        _ => {{}}
    }}
}}
pub proof fn theorem_hash_{x}{G}(a: {T}, b: {T}) requires eq_{x}(a, b) ensures feed_{x}(a) == feed_{x}(b) decreases a, 1nat, 0int
{{
    broadcast use {{axiom_f32, axiom_f64, axiom_map_{x}}};
    match (a, b) {{
        ({t}::Nullable(Either::Right(p)), {t}::Nullable(Either::Right(q))) => {{ theorem_hash_{x}(*p, *q); }}
        ({t}::Array(_, p), {t}::Array(_, q)) => {{ lemma_feeds_{x}(p@, q@, p@.len() as int); }}
        ({t}::Decimal(p), {t}::Decimal(q)) => {{ theorem_equal_hash(p.underlying as int, p.scale as nat, q.underlying as int, q.scale as nat); }}
        ({t}::Map(_, _, p), {t}::Map(_, _, q)) => {{ assert(meq_{x}(*p, *q)); }}
        _ => {{}}
    }}
}}
pub proof fn lemma_feeds_{x}{G}(a: Seq<{T}>, b: Seq<{T}>, n: int) requires eqs_{x}(a, b), 0 <= n <= a.len() ensures feeds_{x}(a, n) == feeds_{x}(b, n) decreases a, 0nat, n
{{ if n > 0 {{ assert(eq_{x}(a[n - 1], b[n - 1])); lemma_feeds_{x}(a, b, n - 1); theorem_hash_{x}(a[n - 1], b[n - 1]); }} }}
// equality and hash of the composite parts: std's implementations for Either, Box, Arc, Vec and HashMap call eq and hash of {t}
impl{G} Same for Either<&'static SqlType, Box<{T}>> {{
    open spec fn eqs(&self, o: &Self) -> bool {{ match (*self, *o) {{ (Either::Left(s), Either::Left(u)) => *s == *u, (Either::Right(a), Either::Right(b)) => eq_{x}(*a, *b), _ => false }} }}
    #[verifier::external_body] fn same_(&self, o: &Self) -> bool {{ unimplemented!() }} }}
impl{G} Same for Arc<Vec<{T}>> {{ open spec fn eqs(&self, o: &Self) -> bool {{ eqs_{x}(self@, o@) }} #[verifier::external_body] fn same_(&self, o: &Self) -> bool {{ unimplemented!() }} }}
impl{G} Same for Arc<HashMap<{T}, {T}>> {{ open spec fn eqs(&self, o: &Self) -> bool {{ meq_{x}(**self, **o) }} #[verifier::external_body] fn same_(&self, o: &Self) -> bool {{ unimplemented!() }} }}
impl{G} Feeds for Box<{T}> {{ open spec fn feeds(&self) -> Seq<int> {{ feed_{x}(**self) }} #[verifier::external_body] fn hash(&self, state: &mut Hs) {{ unimplemented!() }} }}
impl{G} Feeds for Arc<Vec<{T}>> {{ open spec fn feeds(&self) -> Seq<int> {{ seq![self@.len() as int] + feeds_{x}(self@, self@.len() as int) }} #[verifier::external_body] fn hash(&self, state: &mut Hs) {{ unimplemented!() }} }}
"""
    return m


CONV = """
impl<K, V> HashMap<K, V> {
    pub fn len(&self) -> (r: usize) ensures r == self.es@.len() { self.es.len() }
    pub fn with_capacity(n: usize) -> (r: HashMap<K, V>) ensures r.es@.len() == 0 { HashMap { es: Vec::new() } }
    // (keys are distinct: they come from a map)
    pub fn insert(&mut self, k: K, v: V) ensures final(self).es@ == old(self).es@.push((k, v)) { self.es.push((k, v)); }
}
pub open spec fn pair_of<'a>(r: (ValueRef<'a>, ValueRef<'a>), v: (Value, Value)) -> bool decreases v { owns(r.0, v.0) && owns(r.1, v.1) }
// the borrowed form r and the owned form v of the same value
pub open spec fn owns<'a>(r: ValueRef<'a>, v: Value) -> bool decreases v {
    match (r, v) {
        (ValueRef::Bool(a), Value::Bool(b)) => a == b,
        %s
        (ValueRef::String(a), Value::String(b)) => a@ == b@,
        (ValueRef::Float32(a), Value::Float32(b)) => a == b, (ValueRef::Float64(a), Value::Float64(b)) => a == b,
        (ValueRef::DateTime(a, p), Value::DateTime(b, q)) => a == b && p == q,
        (ValueRef::DateTime64(a, p), Value::DateTime64(b, q)) => a == b && *p == q,
        (ValueRef::Nullable(Either::Left(s)), Value::Nullable(Either::Left(u))) => *s == *u,
        (ValueRef::Nullable(Either::Right(a)), Value::Nullable(Either::Right(b))) => owns(*a, *b),
        (ValueRef::Array(s, a), Value::Array(u, b)) => *s == *u && a@.len() == b@.len() && forall|i: int| 0 <= i < b@.len() ==> owns(a@[i], #[trigger] b@[i]),
        (ValueRef::Decimal(a), Value::Decimal(b)) => a == b,
        (ValueRef::Enum8(n, a), Value::Enum8(o, b)) => n@ == o@ && a == b, (ValueRef::Enum16(n, a), Value::Enum16(o, b)) => n@ == o@ && a == b,
        (ValueRef::Map(k1, v1, a), Value::Map(k2, v2, b)) => *k1 == *k2 && *v1 == *v2 && a.es@.len() == b.es@.len() && forall|i: int| 0 <= i < b.es@.len() ==> owns(a.es@[i].0, (#[trigger] b.es@[i]).0) && owns(a.es@[i].1, b.es@[i].1),
        _ => false,
    }
}
pub open spec fn has_ref(v: Value) -> bool decreases v {
    match v {
        Value::ChronoDateTime(_) => false, Value::Nullable(Either::Right(b)) => has_ref(*b),
        Value::Array(_, a) => forall|i: int| 0 <= i < a@.len() ==> has_ref(#[trigger] a@[i]),
        Value::Map(_, _, m) => forall|i: int| 0 <= i < m.es@.len() ==> has_ref((#[trigger] m.es@[i]).0) && has_ref(m.es@[i].1),
        _ => true,
    }
}
// two owned forms of the same borrowed form are equal: converting there and back preserves a value
pub proof fn theorem_there_and_back<'a>(r: ValueRef<'a>, v: Value, w: Value) requires owns(r, v), owns(r, w), no_nan_v(v) ensures eq_v(v, w) decreases v
{
    broadcast use {axiom_f32, axiom_f64, axiom_map_v};
    match (r, v, w) {
        (ValueRef::Nullable(Either::Right(q)), Value::Nullable(Either::Right(a)), Value::Nullable(Either::Right(b))) => { theorem_there_and_back(*q, *a, *b); }
        (ValueRef::Array(_, q), Value::Array(_, a), Value::Array(_, b)) => { assert forall|i: int| 0 <= i < a@.len() implies eq_v(#[trigger] a@[i], b@[i]) by { theorem_there_and_back(q@[i], a@[i], b@[i]); } }
        (ValueRef::Map(_, _, q), Value::Map(_, _, a), Value::Map(_, _, b)) => { assert forall|i: int| 0 <= i < a.es@.len() implies eq_v((#[trigger] a.es@[i]).0, b.es@[i].0) && eq_v(a.es@[i].1, b.es@[i].1) by { assert(owns(q.es@[i].0, b.es@[i].0)); theorem_there_and_back(q.es@[i].0, a.es@[i].0, b.es@[i].0); theorem_there_and_back(q.es@[i].1, a.es@[i].1, b.es@[i].1); } }
        _ => {}
    }
}
impl<'a> Clone for ValueRef<'a> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Decimal { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn bytes_vec(b: &[u8]) -> (r: Vec<u8>) ensures r@ == b@ { unimplemented!() }
#[verifier::external_body] pub fn bytes_of<'a>(b: &'a Arc<Vec<u8>>) -> (r: &'a [u8]) ensures r@ == b@ { unimplemented!() }
#[verifier::external_body] pub fn names_of<T>(b: &Vec<(String, T)>) -> (r: Vec<(String, T)>) ensures r@ == b@ { unimplemented!() }
#[verifier::external_body] pub fn intern(t: SqlType) -> (r: &'static SqlType) ensures *r == t { unimplemented!() }
impl Clone for SqlType { #[verifier::external_body] fn clone(&self) -> (r: SqlType) ensures r == *self { unimplemented!() } }
""" % " ".join(f"(ValueRef::{k}(a), Value::{k}(b)) => a == b," for k in INTK + ["Date", "Ipv4", "Ipv6", "Uuid"])

EQRW = [(r"([\w.]+\(\)) != ([\w.]+\(\))", r"!ueq(\1, \2)", "comparison of lengths through a helper"),
        (r"(\*?\b\w+) == (\*?\b\w+)\b", r"(\1).same_(&\2)", "== through the equality contract of the part"),
        (r"(\*?\b\w+) != (\*?\b\w+)\b", r"!(\1).same_(&\2)", "!= through the equality contract of the part"),
        (r"i64::from\(", "i64_of_(", "lossless i64::from by name")]
HRW = [(r"\(\*(\w+) \+ 0\.0\)\.to_bits\(\)", r"(*\1).zero_bits()", "bits of f + 0.0 through a contract"), (r"\b(\w+)\.to_bits\(\)", r"(*\1).plain_bits()", "bits of f through a contract")]


def build():
    from rsx import Unit
    u = Unit("values", rewrites=C.COMMON_RW)
    u.text(C.HEADER + "use std::sync::Arc;\nverus! {\nglobal size_of usize == 8;\n")
    K.types(u, sval=False)
    u.text(LEAF)
    u.text("pub fn ueq(a: usize, b: usize) -> (r: bool) ensures r == (a == b) { a == b }")
    u.text(model("Value"))
    u.text(model("ValueRef"))
    u.text(CONV)
    SG = [(r"<H: Hasher>", "", "hasher through a recording stub"), (r"&mut H", "&mut Hs", "")]
    u.text("impl Value {")
    u.fn(V, "impl ^impl PartialEq for Value$", "fn eq", vis="pub", rewrites=EQRW, spec="ensures r == eq_v(*self, *other)", hints=[("start", "", "broadcast use axiom_map_v;")])
    u.fn(V, "impl ^impl Hash for Value$", "fn hash", vis="pub", rewrites=HRW, sig=SG, spec="ensures final(state).fed() == old(state).fed() + feed_v(*self)")
    u.text("}\nimpl<'a> ValueRef<'a> {")
    u.fn(VR, "impl ^impl<'a> PartialEq for ValueRef<'a>$", "fn eq", vis="pub", rewrites=EQRW, spec="ensures r == eq_r(*self, *other)", hints=[("start", "", "broadcast use axiom_map_r;")])
    u.fn(VR, "impl ^impl<'a> Hash for ValueRef<'a>$", "fn hash", vis="pub", rewrites=HRW, sig=SG, spec="ensures final(state).fed() == old(state).fed() + feed_r(*self)")
    u.text("}")
    FORV = (r"for v in vs\.iter\(\) \{", "for i_ in 0..vs.len() { let v = &vs[i_];", "iteration of a Vec as indexing")
    FORM = (r"for \(k, v\) in vs\.iter\(\) \{", "for i_ in 0..vs.len() { let k = &vs.es[i_].0; let v = &vs.es[i_].1;", "iteration of a map (model: a sequence of pairs) as indexing")
    u.fn(VR, "impl ^impl<'a> From<ValueRef<'a>> for Value$", "fn from", rename="value_of", vis="pub", attrs="#[verifier::exec_allows_no_decreases_clause]",
         sig=[(r"ValueRef<'a>", "ValueRef", ""), (r"Self", "Value", "Self written out")],
         rewrites=[(r"Arc::new\(v\.into\(\)\)", "Arc::new(bytes_vec(v))", "Into<Vec<u8>> for &[u8] by name"), (r"\(sql_type\.clone\(\)\)\.into\(\)", "intern(sql_type.clone())", "SqlType -> &'static SqlType through the interning stub"),
                   (r"= \((\*\w+)\)\.into\(\)", r"= value_of(\1)", "Into by name"), (r"= (\w+\.clone\(\))\.into\(\)", r"= value_of(\1)", "Into by name"), FORV, FORM],
         spec="ensures owns(borrowed, r)",
         loops=[dict(head=r"^for i_ in 0\.\.vs\.len\(\)$", spec="invariant value_list@.len() == i_, forall|i: int| 0 <= i < i_ ==> owns(vs@[i], #[trigger] value_list@[i])"),
                dict(head=r"^for i_ in 0\.\.vs\.len\(\)$", spec="invariant value_list.es@.len() == i_, forall|i: int| 0 <= i < i_ ==> owns(vs.es@[i].0, (#[trigger] value_list.es@[i]).0) && owns(vs.es@[i].1, value_list.es@[i].1)")])
    u.fn(VR, "impl ^impl<'a> From<&'a Value> for ValueRef<'a>$", "fn from", rename="ref_of", vis="pub", attrs="#[verifier::exec_allows_no_decreases_clause]",
         sig=[(r"^(\s*)fn from", r"\1fn from<'a>", "lifetime of the impl")],
         rewrites=[(r"ValueRef::String\(v\)", "ValueRef::String(bytes_of(v))", "deref of Arc<Vec<u8>> to a slice by name"), (r"v\.as_ref\(\)\.into\(\)", "ref_of(v)", "Into by name"), (r"From::from\((\w)\)", r"ref_of(\1)", "From by name"),
                   (r"sql_type\.to_owned\(\)", "*sql_type", "to_owned of a reference"), (r"\bvalues\.to_vec\(\)", "names_of(values)", "to_vec through a stub"), (r"unimplemented!\(\)", "never()", "must be unreachable under the precondition"), (r"let mut ref_vec = ", "let mut ref_vec: Vec<ValueRef<'a>> = ", "type annotation"), (r"let mut ref_map = ", "let mut ref_map: HashMap<ValueRef<'a>, ValueRef<'a>> = ", "type annotation"), FORV, FORM],
         spec="requires has_ref(*value) ensures owns(r, *value)",
         loops=[dict(head=r"^for i_ in 0\.\.vs\.len\(\)$", spec="invariant has_ref(*value), value matches Value::Array(_, a) && a == vs, ref_vec@.len() == i_, forall|i: int| 0 <= i < i_ ==> owns(ref_vec@[i], #[trigger] vs@[i])"),
                dict(head=r"^for i_ in 0\.\.vs\.len\(\)$", spec="invariant has_ref(*value), value matches Value::Map(_, _, a) && a == vs, ref_map.es@.len() == i_, forall|i: int| 0 <= i < i_ ==> owns(ref_map.es@[i].0, (#[trigger] vs.es@[i]).0) && owns(ref_map.es@[i].1, vs.es@[i].1)")])
    u.text("} fn main() {}")
    return u
