"""Decimals: the number type and the columns of it."""
import re
import os, rsx
from rsx import Lost
from . import cols as K, common as C, wire as W

D = "src/types/decimal.rs"
DC = "src/types/column/decimal.rs"

SPEC = """
pub open spec fn p10(n: nat) -> int decreases n { if n == 0 { 1 } else { 10 * p10((n - 1) as nat) } }
pub proof fn lemma_p10(n: nat) ensures p10(n) > 0 decreases n { if n > 0 { lemma_p10((n - 1) as nat); } }
pub proof fn lemma_p10_add(a: nat, b: nat) ensures p10(a + b) == p10(a) * p10(b) decreases a
{ if a > 0 { lemma_p10_add((a - 1) as nat, b); assert(p10(a) == 10 * p10((a - 1) as nat)); assert(p10(a + b) == 10 * p10((a - 1 + b) as nat)); assert(10 * (p10((a - 1) as nat) * p10(b)) == (10 * p10((a - 1) as nat)) * p10(b)) by (nonlinear_arith); } else { assert(p10(0) * p10(b) == p10(b)) by { assert(p10(0) == 1); } } }
pub proof fn lemma_p10_mono(a: nat, b: nat) requires a <= b ensures p10(a) <= p10(b) decreases b
{ if a < b { lemma_p10_mono(a, (b - 1) as nat); lemma_p10((b - 1) as nat); } }
pub proof fn lemma_p10_18() ensures p10(18) == 1_000_000_000_000_000_000 { reveal_with_fuel(p10, 19); }
// ---- what a decimal denotes: the rational u / 10^s ----
pub open spec fn same_number(u1: int, s1: nat, u2: int, s2: nat) -> bool { u1 * p10(s2) == u2 * p10(s1) }
// division that truncates toward zero
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { a / b } else { -((-a) / b) } }
// the number u / 10^s at scale t, truncated toward zero when t < s
pub open spec fn rescaled(u: int, s: nat, t: nat) -> int { if t >= s { u * p10((t - s) as nat) } else { tdiv(u, p10((s - t) as nat)) } }
pub open spec fn in_i64(x: int) -> bool { i64::MIN <= x <= i64::MAX }
pub open spec fn dwf(d: Decimal) -> bool { d.scale <= 18 }
#[verifier::external_body] pub fn never() -> ! requires false { unimplemented!() }
#[verifier::external_body] pub fn i64_div(a: i64, b: i64) -> (r: i64) requires b > 0 ensures r == tdiv(a as int, b as int) { a / b }
#[verifier::external_body] pub fn i64_rem(a: i64, b: i64) -> (r: i64) requires b > 0 ensures r == a - b * tdiv(a as int, b as int) { a % b }
#[verifier::external_body] pub fn i64_abs(a: i64) -> (r: u64) ensures r == (if a < 0 { -a } else { a as int }) { a.unsigned_abs() }
pub fn opt_is(a: Option<i64>, b: i64) -> (r: bool) ensures r == (a == Some(b)) { match a { Some(x) => x == b, None => false } }
pub proof fn lemma_eq_scale(u1: int, s1: nat, u2: int, s2: nat)
    requires s1 <= s2 ensures same_number(u1, s1, u2, s2) <==> u1 * p10((s2 - s1) as nat) == u2
{
    let k = (s2 - s1) as nat; lemma_p10_add(s1, k); lemma_p10(s1); assert(s1 + k == s2);
    let (a, b, p) = (p10(k), p10(s1), p10(s2));
    assert(u1 * p == (u1 * a) * b) by (nonlinear_arith) requires p == b * a;
    if u1 * a == u2 { assert(u1 * p == u2 * b); }
    if u1 * p == u2 * b { assert(u1 * a == u2) by (nonlinear_arith) requires (u1 * a) * b == u2 * b, b > 0; }
}
// ---- hashing: the number without trailing zeros of its fraction ----
#[verifier::external_body] pub struct Hs { _p: () }
impl Hs {
    pub uninterp spec fn fed(&self) -> Seq<int>;
}
#[verifier::external_body] pub fn feed_i64(x: i64, state: &mut Hs) ensures final(state).fed() == old(state).fed().push(x as int) { unimplemented!() }
#[verifier::external_body] pub fn feed_u8(x: u8, state: &mut Hs) ensures final(state).fed() == old(state).fed().push(x as int) { unimplemented!() }
pub open spec fn reduced(u: int, s: nat) -> (int, nat) decreases s { if s > 0 && u % 10 == 0 { reduced(u / 10, (s - 1) as nat) } else { (u, s) } }
pub proof fn lemma_reduced(u: int, s: nat)
    ensures ({ let (v, t) = reduced(u, s); t <= s && u == v * p10((s - t) as nat) && (t == 0 || v % 10 != 0) }) decreases s
{
    if s > 0 && u % 10 == 0 {
        lemma_reduced(u / 10, (s - 1) as nat); let (v, t) = reduced(u / 10, (s - 1) as nat);
        let k = (s - 1 - t) as nat; assert(p10(k + 1) == 10 * p10(k)); assert(u == 10 * (u / 10));
        assert(v * (10 * p10(k)) == 10 * (v * p10(k))) by (nonlinear_arith);
    } else { assert(p10(0) == 1); }
}
pub proof fn lemma_reduced_same(u: int, s: nat, v: int, t: nat)
    requires same_number(u, s, v, t), s == 0 || u % 10 != 0, t == 0 || v % 10 != 0 ensures u == v, s == t
{
    if s < t { lemma_eq_scale(u, s, v, t); let k = (t - s) as nat; assert(p10(k) == 10 * p10((k - 1) as nat)); let q = p10((k - 1) as nat); assert(u * (10 * q) == 10 * (u * q)) by (nonlinear_arith); assert(v % 10 == 0); }
    else if t < s { assert(same_number(v, t, u, s)); lemma_eq_scale(v, t, u, s); let k = (s - t) as nat; assert(p10(k) == 10 * p10((k - 1) as nat)); let q = p10((k - 1) as nat); assert(v * (10 * q) == 10 * (v * q)) by (nonlinear_arith); assert(u % 10 == 0); }
    else { lemma_eq_scale(u, s, v, t); assert(p10(0) == 1); }
}
// decimals that denote the same number feed the hasher the same
pub proof fn theorem_equal_hash(u1: int, s1: nat, u2: int, s2: nat)
    requires same_number(u1, s1, u2, s2) ensures reduced(u1, s1) == reduced(u2, s2)
{
    lemma_reduced(u1, s1); lemma_reduced(u2, s2);
    let (a, s) = reduced(u1, s1); let (b, t) = reduced(u2, s2);
    // a / 10^s == u1 / 10^s1
    lemma_eq_scale(a, s, u1, s1); lemma_eq_scale(b, t, u2, s2);
    lemma_same_trans(a, s, u1, s1, u2, s2); lemma_same_trans(a, s, u2, s2, b, t);
    lemma_reduced_same(a, s, b, t);
}
pub proof fn lemma_same_trans(a: int, s: nat, b: int, t: nat, c: int, u: nat)
    requires same_number(a, s, b, t), same_number(b, t, c, u) ensures same_number(a, s, c, u), same_number(a, s, a, s), same_number(b, t, a, s)
{
    let (ps, pt, pu) = (p10(s), p10(t), p10(u)); lemma_p10(t);
    // a*pt == b*ps, b*pu == c*pt  ==>  a*pu*pt == c*ps*pt
    assert((a * pu) * pt == (c * ps) * pt) by (nonlinear_arith) requires a * pt == b * ps, b * pu == c * pt;
    assert(a * pu == c * ps) by (nonlinear_arith) requires (a * pu) * pt == (c * ps) * pt, pt > 0;
}
// ---- printing ----
pub open spec fn digit(c: char) -> int { (c as u32 - 48) as int }
pub open spec fn is_digit(c: char) -> bool { 48 <= c as u32 <= 57 }
pub open spec fn digits_ok(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
// the number a row of digits denotes
pub open spec fn num(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { num(s.drop_last()) * 10 + digit(s.last()) } }
#[verifier::external_body] pub fn u64_text(x: u64) -> (r: String) ensures digits_ok(r@), r@.len() > 0, num(r@) == x, x > 0 ==> r@[0] != '0', x == 0 ==> r@.len() == 1 { format!("{}", x) }
pub open spec fn plain(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 <= 127 }
// byte length and byte positions of an ASCII text are character counts
#[verifier::external_body] pub fn text_len(s: &String) -> (r: usize) requires plain(s@) ensures r == s@.len() { s.len() }
#[verifier::external_body] pub fn text_insert(s: &mut String, at: usize, c: char) requires plain(old(s)@), at <= old(s)@.len() ensures final(s)@ == old(s)@.insert(at as int, c) { s.insert(at, c) }
#[verifier::external_body] pub fn text_starts(s: &String, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { s.starts_with(c) }
// `t` is the text of u / 10^s: sign, digits before the point (at least one, no superfluous zero), and exactly s digits behind it
pub open spec fn text_of(t: Seq<char>, u: int, s: nat) -> bool {
    exists|ip: Seq<char>, fp: Seq<char>| #[trigger] text_parts(t, ip, fp, u) && fp.len() == s && ip.len() > 0 && digits_ok(ip) && digits_ok(fp) && (ip.len() > 1 ==> ip[0] != '0')
        && num(ip + fp) == (if u < 0 { -u } else { u })
}
pub open spec fn text_parts(t: Seq<char>, ip: Seq<char>, fp: Seq<char>, u: int) -> bool {
    t == (if u < 0 { seq!['-'] } else { Seq::empty() }) + ip + (if fp.len() > 0 { seq!['.'] + fp } else { Seq::empty() })
}
pub open spec fn zeros(n: nat) -> Seq<char> { Seq::new(n, |i: int| '0') }
pub proof fn lemma_num_zero(s: Seq<char>) requires s.len() >= 0 ensures num(seq!['0'] + s) == num(s), digits_ok(s) ==> digits_ok(seq!['0'] + s) decreases s.len()
{
    let z = seq!['0'] + s;
    if s.len() == 0 { assert(z =~= seq!['0']); assert(z.drop_last() =~= Seq::<char>::empty()); assert(z.last() == '0'); assert(num(z.drop_last()) == 0); }
    else { assert(z.drop_last() =~= seq!['0'] + s.drop_last()); lemma_num_zero(s.drop_last()); assert(z.last() == s.last()); }
    if digits_ok(s) { assert forall|i: int| 0 <= i < z.len() implies is_digit(#[trigger] z[i]) by { if i > 0 { assert(z[i] == s[i - 1]); } } }
}
"""


def factors():
    m = re.search(r"static FACTORS10: &\[i64\] = &\[(.*?)\];", rsx.strip_comments(open(os.path.join(rsx.REPO, D)).read()), re.S)
    if not m:
        raise Lost(f"{D}: FACTORS10")
    return [x.strip() for x in m.group(1).split(",") if x.strip()]


def table(u):
    f = factors()
    u.text(f"// extracted: static FACTORS10\npub const FACTORS10: [i64; {len(f)}] = [{', '.join(f)}];\n"
           "pub proof fn lemma_factors() ensures FACTORS10@.len() == 19, forall|i: int| 0 <= i < 19 ==> #[trigger] FACTORS10@[i] == p10(i as nat)\n"
           "{ reveal_with_fuel(p10, 20); assert(FACTORS10@.len() == 19); assert forall|i: int| 0 <= i < 19 implies #[trigger] FACTORS10@[i] == p10(i as nat) by { " +
           " ".join(f"if i == {i} {{ assert(FACTORS10@[{i}] == p10({i})); }}" for i in range(len(f))) + " } }")


def decimal(u):
    u.text(SPEC)
    table(u)
    u.text("impl NoBits {")
    u.fn(D, "impl ^impl NoBits$", "fn from_precision", vis="pub", spec="ensures precision <= 9 ==> (r matches Some(n) && n is N32), 9 < precision <= 18 ==> (r matches Some(n) && n is N64), precision > 18 ==> r is None")
    u.text("}\nimpl Decimal {")
    I = (D, "impl ^impl Decimal$")
    PAN = (r"panic!\(\"scale can't be greater than 18\"\);", "never();", "panic branch: must be unreachable under the precondition")
    LF = ("start", "", "proof { lemma_factors(); }")
    u.fn(*I, "fn new", vis="pub", rewrites=[PAN], spec="requires scale <= 18 ensures r.underlying == underlying, r.scale == scale, dwf(r)")
    u.fn(*I, "fn scale", vis="pub", spec="ensures r == self.scale")
    MC = (r"match (\S+)\.cmp\(&([^)]*)\) \{", r"match u8_cmp(\1, \2) {", "Ord::cmp of u8 through a helper")
    u.fn(*I, "fn set_scale", vis="pub", rewrites=[MC, (r"self\.underlying / FACTORS10\[(\w+)\]", r"i64_div(self.underlying, FACTORS10[\1])", "signed division through a stub (truncating)")],
         spec="""requires dwf(self), scale <= 18, in_i64(rescaled(self.underlying as int, self.scale as nat, scale as nat))
         ensures r.underlying == rescaled(self.underlying as int, self.scale as nat, scale as nat), r.scale == scale, dwf(r), r.precision == self.precision, r.nobits == self.nobits""",
         hints=[("start", "", "proof { lemma_factors(); lemma_p10_18(); assert(p10(0) == 1); lemma_p10((if scale < self.scale { self.scale - scale } else { scale - self.scale }) as nat); }")])
    u.text("}")
    u.text("pub enum Ordering { Less, Equal, Greater }\npub fn u8_cmp(a: u8, b: u8) -> (r: Ordering) ensures r == (if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }) { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }")
    u.text("impl Decimal {")
    u.fn(D, "impl ^impl PartialEq for Decimal", "fn eq", vis="pub",
         rewrites=[MC, (r"(\w+)\.underlying\.checked_mul\(FACTORS10\[(\w+)\]\) == Some\((\w+)\.underlying\)", r"opt_is(\1.underlying.checked_mul(FACTORS10[\2]), \3.underlying)", "comparison of options through a helper")],
         spec="requires dwf(*self), dwf(*other) ensures r == same_number(self.underlying as int, self.scale as nat, other.underlying as int, other.scale as nat)",
         hints=[("start", "", "proof { lemma_factors(); let (a, b) = (*self, *other); if a.scale <= b.scale { lemma_eq_scale(a.underlying as int, a.scale as nat, b.underlying as int, b.scale as nat); } if b.scale <= a.scale { lemma_eq_scale(b.underlying as int, b.scale as nat, a.underlying as int, a.scale as nat); } assert(p10(0) == 1); assert(a.underlying * 1 == a.underlying); if a.scale > b.scale { let k = (a.scale - b.scale) as nat; assert(FACTORS10@[k as int] == p10(k)); } else { let k = (b.scale - a.scale) as nat; assert(FACTORS10@[k as int] == p10(k)); } }")])
    u.fn(D, "impl ^impl Hash for Decimal", "fn hash", vis="pub", sig=[(r"<H: Hasher>", "", "hasher through a recording stub"), (r"&mut H", "&mut Hs", "")],
         rewrites=[(r"let \(mut underlying, mut scale\) = \(self\.underlying, self\.scale\);", "let mut underlying = self.underlying; let mut scale = self.scale;", "tuple pattern split"),
                   (r"underlying\.hash\(state\)", "feed_i64(underlying, state)", "Hash for i64 through a recording stub"), (r"scale\.hash\(state\)", "feed_u8(scale, state)", "Hash for u8 through a recording stub"),
                   (r"underlying % 10", "i64_rem(underlying, 10)", "signed remainder through a stub"), (r"underlying /= 10;", "underlying = i64_div(underlying, 10);", "signed division through a stub (truncating)")],
         spec="ensures ({ let (u, s) = reduced(self.underlying as int, self.scale as nat); final(state).fed() == old(state).fed() + seq![u, s as int] })",
         loops=[dict(head="^while ", spec="invariant reduced(underlying as int, scale as nat) == reduced(self.underlying as int, self.scale as nat) decreases scale", start="proof { lemma_div10(underlying as int); }")],
         hints=[("end", "", "proof { let (u, s) = reduced(self.underlying as int, self.scale as nat); lemma_div10(underlying as int); assert(state.fed() =~= old(state).fed() + seq![u, s as int]); }")])
    u.text("}\npub proof fn lemma_div10(x: int) ensures (x - 10 * tdiv(x, 10) == 0) == (x % 10 == 0), x % 10 == 0 ==> tdiv(x, 10) == x / 10 {}")
    u.fn(D, "fn decimal2str", vis="pub",
         rewrites=[(r'format!\("\{\}", decimal\.underlying\.unsigned_abs\(\)\)', "u64_text(i64_abs(decimal.underlying))", "Display for u64 through a stub"),
                   (r"r\.len\(\)", "text_len(&r)", "String::len through a stub"), (r"r\.insert\(", "text_insert(&mut r, ", "String::insert through a stub"), (r"r\.starts_with\('(.)'\)", r"text_starts(&r, '\1')", "str::starts_with through a stub")],
         spec="requires dwf(*decimal) ensures text_of(r@, decimal.underlying as int, decimal.scale as nat)",
         loops=[dict(head="^while ", spec="invariant digits_ok(r@), plain(r@), num(r@) == (if decimal.underlying < 0 { -decimal.underlying } else { decimal.underlying as int }), r@.len() > 0, dwf(*decimal), r@.len() > decimal.scale && r@.len() > 1 ==> r@[0] != '0' decreases decimal.scale - r@.len()",
                     start="let ghost r0 = r@; proof { lemma_num_zero(r@); assert(r0.insert(0, '0') =~= seq!['0'] + r0); }", before="proof { assert(plain(r@)); }")],
         hints=[("after", r"let pos = [^;]*;", "let ghost all = r@; let ghost ip = r@.take(pos as int); let ghost fp = r@.skip(pos as int); proof { assert(all =~= ip + fp); assert(digits_ok(ip)); assert(digits_ok(fp)); }"),
                ("before", r"if text_starts", "let ghost r1 = r@; proof { if decimal.scale > 0 { assert(r1 =~= ip + (seq!['.'] + fp)); assert(r1[0] == (if pos == 0 { '.' } else { ip[0] })); } else { assert(r1 =~= ip); assert(r1[0] == ip[0]); } assert(plain(r1)); if pos > 0 { assert(is_digit(ip[0])); } }"),
                ("before", r"if decimal\.underlying < 0", """let ghost ip2 = if pos == 0 { seq!['0'] } else { ip };
            proof { lemma_num_zero(fp); if pos == 0 { assert(ip =~= Seq::<char>::empty()); assert(all =~= fp); } assert(r@ =~= ip2 + (if fp.len() > 0 { seq!['.'] + fp } else { Seq::empty() })); assert(plain(r@)); assert(digits_ok(ip2)); assert(num(ip2 + fp) == num(all)); }"""),
                ("before", r"r$", "proof { assert(text_parts(r@, ip2, fp, decimal.underlying as int)) by { assert(r@ =~= (if decimal.underlying < 0 { seq!['-'] } else { Seq::empty() }) + ip2 + (if fp.len() > 0 { seq!['.'] + fp } else { Seq::empty() })); } }\n    ")])


BASE = """
// a number that a decimal can be made of
pub trait Base: Sized {
    spec fn val(self) -> int;
    fn scale(self, scale: i64) -> (r: i64) requires scale > 0, in_i64(self.val() * scale) ensures r == self.val() * scale;
}
"""


def bases(u):
    u.text(BASE)
    lem = "proof { let (a, b) = (self as int, scale as int); if a < 0 { assert(-a * b >= -a) by (nonlinear_arith) requires a < 0, b > 0; } assert(a * b <= i64::MAX); }"
    for t in ("i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"):
        u.text(f"impl Base for {t} {{ open spec fn val(self) -> int {{ self as int }}")
        cast = next((x.partition(":")[2].strip() for args in rsx.macro_args(D, "base_for") for x in [a for a in args] if x.partition(":")[0].strip() == t), None)
        if cast is None:
            raise Lost(f"{D}: base_for! has no entry for {t}")
        u.fn(D, f"macro_expand base_for t={t},cast={cast}", f"impl Base for {t}", "fn scale",
             rewrites=[(r"\(\|(\w+)(?:: \w+)?, (\w+)(?:: \w+)?\| (.*)\)\(self, scale\)", r"{ let \1 = self; let \2 = scale; \3 }", "closure applied at once written as a block"),
                       (r"\(\(\|(\w+)(?:: \w+)?, (\w+)(?:: \w+)?\| (.*)\)\)\(self, scale\)", r"{ let \1 = self; let \2 = scale; \3 }", "closure applied at once written as a block"),
                       (r"i64::from\(value\)", "(value as i64)", "lossless i64::from written as a cast")])
        u.text("}")
    u.text("impl Decimal {")
    u.fn(D, "impl ^impl Decimal$", "fn of", vis="pub", rewrites=[(r"panic!\([^;]*\);", "never();", "panic branch: must be unreachable under the precondition")],
         spec="""requires scale <= 18, in_i64(source.val() * p10(scale as nat)), source.val() * p10(scale as nat) <= p10(18)
         ensures r.underlying == source.val() * p10(scale as nat), r.scale == scale, dwf(r)""", hints=[("start", "", "proof { lemma_factors(); lemma_p10(scale as nat); }")])
    u.text("}")


COLS = """
pub open spec fn in_bits(n: NoBits, x: int) -> bool { if n is N32 { i32::MIN <= x <= i32::MAX } else { in_i64(x) } }
pub open spec fn bits_of(p: u8) -> NoBits { if p <= 9 { NoBits::N32 } else { NoBits::N64 } }
pub open spec fn int_of(n: NoBits) -> SqlType { if n is N32 { SqlType::Int32 } else { SqlType::Int64 } }
pub open spec fn int_value(n: NoBits, x: int) -> Value { if n is N32 { Value::Int32(x as i32) } else { Value::Int64(x as i64) } }
pub proof fn lemma_dec_cat(p: u8, s: u8, cells: Seq<SVal>)
    ensures ({ let t = int_of(bits_of(p)); let d = SqlType::Decimal(p, s); cat(d, cells) == cat(t, cells) && all_ok(d, cells) == all_ok(t, cells) }) decreases cells.len()
{
    let t = int_of(bits_of(p)); let d = SqlType::Decimal(p, s);
    assert forall|i: int| 0 <= i < cells.len() implies cell_ok(d, #[trigger] cells[i]) == cell_ok(t, cells[i]) by {}
    if all_ok(t, cells) { assert forall|i: int| 0 <= i < cells.len() implies cell_ok(d, #[trigger] cells[i]) by { assert(cell_ok(t, cells[i])); } }
    if all_ok(d, cells) { assert forall|i: int| 0 <= i < cells.len() implies cell_ok(t, #[trigger] cells[i]) by { assert(cell_ok(d, cells[i])); } }
    if cells.len() > 0 { lemma_dec_cat(p, s, cells.drop_last()); }
}
// the integer columns a decimal column is made of take the integers of their width (numeric unit)
pub open spec fn takes_ints(c: ArcColumnData, n: NoBits) -> bool { forall|x: int| #![trigger int_value(n, x)] in_bits(n, x) ==> c.takes(int_value(n, x)) && c.stored(int_value(n, x)) == SVal::Num(x) }
#[verifier::external_body] pub proof fn axiom_int_columns(c: ArcColumnData, n: NoBits) requires c.ty() == int_of(n) ensures takes_ints(c, n), c.dict(), forall|i: int| 0 <= i < c.cells().len() ==> (#[trigger] c.cells()[i]) is Num && in_bits(n, c.cells()[i]->Num_0) {}
#[verifier::external_body] pub proof fn axiom_int_names(tz: Tz) ensures name_type("Int32"@, tz) == Some(SqlType::Int32), name_type("Int64"@, tz) == Some(SqlType::Int64) {}
pub trait InternalResult: Sized { spec fn holds(x: i64) -> bool; spec fn val(self) -> int; fn get(underlying: i64) -> (r: Self) requires Self::holds(underlying) ensures r.val() == underlying; }
pub fn value_i32(x: i32) -> (r: Value) ensures r == Value::Int32(x) { Value::Int32(x) }
pub fn value_i64(x: i64) -> (r: Value) ensures r == Value::Int64(x) { Value::Int64(x) }
pub trait IntoValue { spec fn as_v(self) -> Value; fn into_value(self) -> (r: Value) ensures r == self.as_v(); }
impl IntoValue for i32 { open spec fn as_v(self) -> Value { Value::Int32(self) } fn into_value(self) -> Value { Value::Int32(self) } }
impl IntoValue for i64 { open spec fn as_v(self) -> Value { Value::Int64(self) } fn into_value(self) -> Value { Value::Int64(self) } }
pub open spec fn dec_fits(v: Value, s: u8, n: NoBits) -> bool { v is Decimal && dwf(v->Decimal_0) && in_bits(n, rescaled(v->Decimal_0.underlying as int, v->Decimal_0.scale as nat, s as nat)) }
"""


def columns(u):
    u.text(K.ADAPT + COLS + "impl InternalResult for i32 { open spec fn holds(x: i64) -> bool { i32::MIN <= x <= i32::MAX } open spec fn val(self) -> int { self as int }")
    u.fn(D, "impl ^impl InternalResult for i32", "fn get")
    u.text("}\nimpl InternalResult for i64 { open spec fn holds(x: i64) -> bool { true } open spec fn val(self) -> int { self as int }")
    u.fn(D, "impl ^impl InternalResult for i64", "fn get")
    u.text("}\nimpl Decimal {")
    u.fn(D, "impl ^impl Decimal$", "fn internal", vis="pub", spec="requires I::holds(self.underlying) ensures r.val() == self.underlying", rewrites=[(r"InternalResult::get", "I::get", "trait function named through its type")])
    u.text("}")
    K.valueref_into(u, "i32", "Int32", "i32_of")
    K.valueref_into(u, "i64", "Int64", "i64_of")
    I = (DC, "impl ^impl ColumnData for DecimalColumnData")
    u.item(DC, "struct DecimalColumnData", rewrites=[(r"Box<dyn ColumnData \+ Send \+ Sync>", "ArcColumnData", "Box<dyn ColumnData> -> Arc<dyn ColumnData> (uniquely owned)"), (r"pub\(crate\)", "pub", "")])
    u.text("impl DecimalColumnData {")
    u.fn(DC, "impl ^impl DecimalColumnData$", "fn load", vis="pub", rewrites=[(r"<dyn ColumnData>::load_data::<BoxColumnWrapper, _>\(", "load_data(", "dispatch by type name through its contract")],
         spec="""requires precision <= 18, scale <= 18, nobits == bits_of(precision)
         ensures same_end(*final(reader), *old(reader)), r matches Ok(c) ==> c.wf() && c.ty() == SqlType::Decimal(precision, scale) && c.cells().len() == size && took(c.ty(), c.cells(), old(reader).rest(), final(reader).rest())""",
         hints=[("start", "", "proof { axiom_int_names(tz); }"), ("before", r"Ok\(DecimalColumnData", "proof { lemma_dec_cat(precision, scale, inner.cells()); axiom_int_columns(inner, nobits); }")])
    u.text("""}
impl ColumnData for DecimalColumnData {
    open spec fn wf(&self) -> bool { self.inner.wf() && self.inner.ty() == int_of(self.nobits) && self.nobits == bits_of(self.precision) && self.scale <= 18 && self.precision <= 18 && takes_ints(self.inner, self.nobits) }
    open spec fn ty(&self) -> SqlType { SqlType::Decimal(self.precision, self.scale) }
    open spec fn cells(&self) -> Seq<SVal> { self.inner.cells() }
    open spec fn dict(&self) -> bool { true }
    open spec fn takes(&self, v: Value) -> bool { dec_fits(v, self.scale, self.nobits) }
    // the same number at the column's scale, truncated toward zero
    open spec fn stored(&self, v: Value) -> SVal { SVal::Num(rescaled(v->Decimal_0.underlying as int, v->Decimal_0.scale as nat, self.scale as nat)) }""")
    u.fn(*I, "fn sql_type")
    u.fn(*I, "fn save", hints=[("start", "", "proof { lemma_dec_cat(self.precision, self.scale, self.cells().subrange(start as int, end as int)); }")])
    u.fn("src/types/column/column_data.rs", "trait ColumnData", "fn save_keys", hints=[("start", "", "proof { assert(self.cells().subrange(0, self.cells().len() as int) =~= self.cells()); }")])
    u.fn(*I, "fn len")
    NEV = (r'panic!\("[^"]*"\);', "never();", "panic branch: must be unreachable under the precondition")
    u.fn(*I, "fn push", rewrites=[NEV, (r"self\.inner\.push\(internal\.into\(\)\)", "arc_mut(&mut self.inner).push(internal.into_value())", "unique dyn column through a stub; From<integer> for Value through its contract")],
         hints=[("start", "", "let ghost d0 = value->Decimal_0; let ghost u1 = rescaled(d0.underlying as int, d0.scale as nat, self.scale as nat); proof { assert(in_bits(self.nobits, u1)); let _ = int_value(self.nobits, u1); assert(self.inner.takes(int_value(self.nobits, u1))); }"),
                ("end", "", "proof { assert(takes_ints(self.inner, self.nobits)) by { assert forall|x: int| #![trigger int_value(self.nobits, x)] in_bits(self.nobits, x) implies self.inner.takes(int_value(self.nobits, x)) && self.inner.stored(int_value(self.nobits, x)) == SVal::Num(x) by { assert(old(self).inner.takes(int_value(self.nobits, x))); assert(self.inner.takes(int_value(self.nobits, x)) == old(self).inner.takes(int_value(self.nobits, x))); assert(self.inner.stored(int_value(self.nobits, x)) == old(self).inner.stored(int_value(self.nobits, x))); } } }")])
    u.fn(*I, "fn at", rewrites=[(r"i64::from\(i32::from\((self\.inner\.at\(index\))\)\)", r"(i32_of(\1) as i64)", "From<ValueRef> for i32 by name; lossless cast"), (r"i64::from\((self\.inner\.at\(index\))\)", r"i64_of(\1)", "From<ValueRef> for i64 by name")])
    u.text("}")
    K.clone_instance(u, *I, "DecimalColumnData", rewrites=[(r"self\.inner\.clone_instance\(\)", "box_to_arc(clone_dyn(&self.inner))", "clone_instance of a dyn column through stubs")])
    A = (DC, r"impl ^impl<K: ColumnType> ColumnData for DecimalAdapter<K>")
    u.item(DC, "struct DecimalAdapter", rewrites=[(r"pub\(crate\)", "pub", "")])
    u.text("""
pub open spec fn rescale_cell(c: SVal, s0: u8, s: u8) -> SVal { SVal::Num(rescaled(c->Num_0, s0 as nat, s as nat)) }
impl<K: ColumnType> ColumnData for DecimalAdapter<K> {
    open spec fn wf(&self) -> bool { self.column.wf() && (self.column.ty() matches SqlType::Decimal(p0, s0) && s0 <= 18 && self.scale <= 18 && self.precision <= 18 && self.nobits == bits_of(self.precision)
        && forall|i: int| 0 <= i < self.column.cells().len() ==> (#[trigger] self.column.cells()[i]) is Num && in_bits(self.nobits, rescaled(self.column.cells()[i]->Num_0, s0 as nat, self.scale as nat))) }
    open spec fn ty(&self) -> SqlType { SqlType::Decimal(self.precision, self.scale) }
    open spec fn cells(&self) -> Seq<SVal> { Seq::new(self.column.cells().len(), |i: int| rescale_cell(self.column.cells()[i], self.column.ty()->Decimal_1, self.scale)) }
    open spec fn dict(&self) -> bool { false }
    open spec fn takes(&self, v: Value) -> bool { false }
    open spec fn stored(&self, v: Value) -> SVal { arbitrary() }
    #[verifier::external_body] fn save_keys(&self, encoder: &mut Encoder) { unimplemented!() }
    #[verifier::external_body] fn push(&mut self, v: Value) { unimplemented!() }""")
    u.fn(*A, "fn sql_type")
    u.fn(*A, "fn len")
    u.fn(*A, "fn at", rewrites=[NEV])
    u.fn(*A, "fn save", rewrites=[NEV], loops=[dict(head=r"^for i in start\.\.end$", spec="""
            invariant self.wf(), start <= end <= self.cells().len(), old(encoder)@.len() <= encoder@.len(), encoder@ == old(encoder)@ + cat(self.ty(), self.cells().subrange(start as int, i as int)), all_ok(self.ty(), self.cells().subrange(start as int, i as int))""",
            start="let ghost c0 = self.cells().subrange(start as int, i as int); let ghost c1 = self.cells().subrange(start as int, i + 1); let ghost e0 = encoder@; proof { lemma_p256(); assert(c1.drop_last() =~= c0); assert(c1.last() == self.cells()[i as int]); assert(self.column.cells()[i as int] is Num); }",
            end="""proof { assert(encoder@ =~= e0 + cell_bytes(self.ty(), c1.last())); assert(encoder@ =~= old(encoder)@ + cat(self.ty(), c1));
               assert(cell_ok(self.ty(), c1.last())); assert forall|j: int| 0 <= j < c1.len() implies cell_ok(self.ty(), #[trigger] c1[j]) by { if j < c0.len() { assert(c1[j] == c0[j]); assert(cell_ok(self.ty(), c0[j])); } } }""",
            before="proof { assert(self.cells().subrange(start as int, start as int) =~= Seq::<SVal>::empty()); assert(encoder@ =~= old(encoder)@ + cat(self.ty(), self.cells().subrange(start as int, start as int))); }")],
         hints=[("end", "", "proof { let o = old(encoder)@; assert(encoder@.take(o.len() as int) =~= o); assert(encoder@.skip(o.len() as int) =~= cat(self.ty(), self.cells().subrange(start as int, end as int))); }")])
    u.text("}")


def build():
    u = K.prelude("decimals", ints=("u8", "i32", "i64", "u64"))
    u.text(K.LOADDATA)
    decimal(u)
    bases(u)
    columns(u)
    u.text("} fn main() {}")
    return u
