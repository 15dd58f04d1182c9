"""Specification vocabulary shared by the units: wire spec functions, stubs for the
dependencies that the extracted code calls, and the contracts of the wire layer."""
from rsx import Unit

HEADER = """#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_parens, unused_braces)]
use vstd::prelude::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::power::*;
use vstd::bits::*;
use vstd::utf8::*;
use vstd::string::*;
use vstd::slice::*;
"""

# ---- rewrites that apply to every body ----------------------------------
COMMON_RW = [
    (r"\bcrate::\w+(?:::\w+)*::(?=[A-Z])", "", "drop module paths (items are flattened into one module)"),
    (r"(?:borrow::)?Cow::(?:from|Borrowed)\(\s*\"[^\"]*\",?\s*\)", "String::new()", "message text of an error replaced by the empty string"),
    (r"Cow<'static, str>", "String", "Cow<'static, str> -> String (ownership of message text is irrelevant)"),
]

ERRORS_TEXT = """
// ---- stub of std::io (dependency; assumed) ----
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum IoErrorKind { WouldBlock, Other, UnexpectedEof, ConnectionReset, BrokenPipe, Unknown }
impl vstd::std_specs::cmp::PartialEqSpecImpl for IoErrorKind {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &IoErrorKind) -> bool { *self == *o }
}
pub assume_specification [<IoErrorKind as PartialEq>::eq](a: &IoErrorKind, b: &IoErrorKind) -> bool;
pub mod io {
    use super::*;
    pub use super::IoErrorKind as ErrorKind;
    pub struct Error { pub k: ErrorKind }
    impl Error {
        pub fn new<E>(kind: ErrorKind, e: E) -> (r: Error) ensures r.k == kind { Error { k: kind } }
        pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k { self.k }
        pub fn from(kind: ErrorKind) -> (r: Error) ensures r.k == kind { Error { k: kind } }
    }
    pub type Result<T> = core::result::Result<T, Error>;
}
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
"""


def errors(u: Unit):
    u.text(ERRORS_TEXT)
    u.item("src/errors/mod.rs", "enum DriverError", rewrites=[
        (r"Utf8Error\s*\([^)]*\)", "Utf8Error", "payload of DriverError::Utf8Error dropped (error text only)")])
    u.text("""
pub enum ConnectionError { TlsHostNotProvided, IoError(io::Error), Broken }
pub enum UrlError { Invalid }
""")
    u.item("src/errors/mod.rs", "enum FromSqlError")
    u.item("src/errors/mod.rs", "struct ServerError")
    u.item("src/errors/mod.rs", "enum Error")
    u.text("""
pub type Result<T> = core::result::Result<T, Error>;
pub open spec fn is_would_block(e: Error) -> bool { e is Io && e->Io_0.k == io::ErrorKind::WouldBlock }
pub open spec fn is_overflow(e: Error) -> bool { e is Driver && e->Driver_0 is Overflow }
impl vstd::std_specs::convert::FromSpecImpl<io::Error> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: io::Error) -> Error { Error::Io(e) }
}
impl From<io::Error> for Error {""")
    u.fn("src/errors/mod.rs", "impl ^impl From<io::Error> for Error$", "fn from")
    u.text("""}
impl vstd::std_specs::convert::FromSpecImpl<DriverError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: DriverError) -> Error { Error::Driver(e) }
}
impl From<DriverError> for Error {""")
    u.fn("src/errors/mod.rs", "impl ^impl From<DriverError> for Error$", "fn from")
    u.text("""}
impl vstd::std_specs::convert::FromSpecImpl<std::string::FromUtf8Error> for Error {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: std::string::FromUtf8Error) -> Error { arbitrary() }
}
impl From<std::string::FromUtf8Error> for Error {
    #[verifier::external_body]
    fn from(err: std::string::FromUtf8Error) -> (r: Error) ensures r is Other { Error::Other(err.to_string()) }
}
impl Error {""")
    u.fn("src/errors/mod.rs", "impl ^impl Error$", "fn is_would_block", spec="ensures r == is_would_block(*self)", vis="pub")
    u.text("}")


# ---- varint / little endian spec functions and lemmas ---------------------
WIRE_SPEC = """
pub open spec fn enc(v: nat) -> Seq<u8> decreases v {
    if v < 128 { seq![v as u8] } else { seq![(v % 128 + 128) as u8] + enc(v / 128) }
}
pub enum Dec { Val(u64, nat), Overflow, Incomplete }
pub open spec fn dec_from(s: Seq<u8>, i: nat, acc: nat) -> Dec decreases s.len() - i {
    if i >= s.len() { Dec::Incomplete }
    else if s[i as int] < 128 {
        if i == 9 && s[i as int] > 1 { Dec::Overflow }
        else { Dec::Val((acc + s[i as int] as nat * pow2(7 * i)) as u64, i + 1) }
    } else if i >= 9 { Dec::Overflow }
    else { dec_from(s, i + 1, acc + (s[i as int] - 128) as nat * pow2(7 * i)) }
}
pub open spec fn dec(s: Seq<u8>) -> Dec { dec_from(s, 0, 0) }

pub proof fn lemma_enc_pos(v: nat) ensures enc(v).len() >= 1 {}
pub proof fn lemma_enc_len(v: nat, k: nat)
    requires v < pow2(7 * (k + 1)) ensures 1 <= enc(v).len() <= k + 1 decreases k
{
    if v >= 128 {
        assert(pow2(7) == 128) by { lemma2_to64(); }
        if k == 0 { assert(false); }
        lemma_pow2_adds(7, 7 * k);
        assert(pow2(7 * (k + 1)) == 128 * pow2(7 * k));
        assert(v / 128 < pow2(7 * k)) by (nonlinear_arith) requires v < 128 * pow2(7 * k);
        lemma_enc_len(v / 128, (k - 1) as nat);
    }
}
pub proof fn lemma_enc_len64(v: u64) ensures 1 <= enc(v as nat).len() <= 10 {
    assert(pow2(70) >= 0x1_0000_0000_0000_0000) by { lemma2_to64_rest(); lemma_pow2_adds(64, 6); lemma2_to64(); }
    lemma_enc_len(v as nat, 9);
}
// decoding an encoding gives the value back and consumes exactly the encoding
pub proof fn lemma_dec_enc_from(v: nat, i: nat, acc: nat, pre: Seq<u8>, rest: Seq<u8>)
    requires pre.len() == i, i <= 9, acc + v * pow2(7 * i) < 0x1_0000_0000_0000_0000,
    ensures dec_from(pre + enc(v) + rest, i, acc) == Dec::Val((acc + v * pow2(7 * i)) as u64, i + enc(v).len())
    decreases v
{
    let s = pre + enc(v) + rest;
    lemma_pow2_pos(7 * i);
    assert(pow2(7) == 128) by { lemma2_to64(); }
    if v < 128 {
        assert(s[i as int] == v as u8);
        if i == 9 {
            assert(pow2(63) == 0x8000_0000_0000_0000) by { lemma2_to64_rest(); }
            assert(v <= 1) by (nonlinear_arith) requires v * 0x8000_0000_0000_0000 < 0x1_0000_0000_0000_0000;
        }
    } else {
        assert(enc(v) =~= seq![(v % 128 + 128) as u8] + enc(v / 128));
        let pre2 = pre.push((v % 128 + 128) as u8);
        assert(pre2 + enc(v / 128) + rest =~= s);
        assert(s[i as int] == (v % 128 + 128) as u8);
        lemma_pow2_adds(7 * i, 7);
        assert(pow2(7 * (i + 1)) == pow2(7 * i) * 128);
        assert(v == (v / 128) * 128 + v % 128);
        assert(v * pow2(7 * i) == (v / 128) * (pow2(7 * i) * 128) + (v % 128) * pow2(7 * i)) by (nonlinear_arith)
            requires v == (v / 128) * 128 + v % 128;
        if i == 9 {
            assert(pow2(63) == 0x8000_0000_0000_0000) by { lemma2_to64_rest(); }
            assert(v <= 1) by (nonlinear_arith) requires v * 0x8000_0000_0000_0000 < 0x1_0000_0000_0000_0000;
            assert(false);
        }
        lemma_dec_enc_from(v / 128, i + 1, acc + (v % 128) * pow2(7 * i), pre2, rest);
    }
}
pub proof fn lemma_dec_enc(v: u64, rest: Seq<u8>)
    ensures dec(enc(v as nat) + rest) == Dec::Val(v, enc(v as nat).len())
{
    assert(pow2(0) == 1) by { lemma2_to64(); }
    assert(Seq::<u8>::empty() + enc(v as nat) + rest =~= enc(v as nat) + rest);
    assert(v as nat * pow2(7 * 0) == v) by { assert(7 * 0 == 0); }
    assert(Seq::<u8>::empty().len() == 0);
    lemma_dec_enc_from(v as nat, 0, 0, Seq::empty(), rest);
}
// accumulator facts used by the decoder
pub proof fn lemma_acc_step(x: u64, b: u8, s: u32, i: nat)
    requires s == 7 * i, i <= 8, x < pow2(7 * i), b >= 128,
    ensures
        x as nat + (b - 128) as nat * pow2(7 * i) < pow2(7 * (i + 1)),
        (x | (((b & 0x7f) as u64) << s)) == x as nat + (b - 128) as nat * pow2(7 * i),
{
    lemma_pow2_adds(7 * i, 7);
    assert(pow2(7) == 128) by { lemma2_to64(); }
    lemma_pow2_strictly_increases(7 * i, 57);
    assert(pow2(56) == 0x100_0000_0000_0000 && pow2(57) == 0x200_0000_0000_0000) by { lemma2_to64_rest(); }
    let p = 1u64 << s;
    assert(p == pow2(7 * i)) by { assert(1 * pow2(s as nat) <= u64::MAX) ; lemma_u64_shl_is_mul(1, s as u64); assert(1u64 << (s as u64) == 1u64 << s); }
    assert(b & 0x7f == b - 128) by (bit_vector) requires b >= 128;
    let c = (b & 0x7f) as u64;
    assert(c < 128);
    if 7 * i < 56 { lemma_pow2_strictly_increases(7 * i, 56); }
    assert(c * pow2(7 * i) <= 127 * pow2(56)) by (nonlinear_arith)
        requires c <= 127, pow2(7 * i) <= pow2(56);
    lemma_u64_shl_is_mul(c, s as u64);
    assert(c << (s as u64) == c << s);
    assert(x | (c << s) == add(x, c << s)) by (bit_vector)
        requires x < (1u64 << s), c < 128, s <= 56;
    assert(x as nat + c * pow2(7 * i) < pow2(7 * i) * 128) by (nonlinear_arith)
        requires x < pow2(7 * i), c <= 127;
}
pub proof fn lemma_acc_last(x: u64, b: u8, s: u32, i: nat)
    requires s == 7 * i, i <= 9, x < pow2(7 * i), b < 128, i == 9 ==> b <= 1,
    ensures (x | ((b as u64) << s)) == (x as nat + b as nat * pow2(7 * i)),
        x as nat + b as nat * pow2(7 * i) < 0x1_0000_0000_0000_0000,
{
    assert(pow2(56) == 0x100_0000_0000_0000 && pow2(63) == 0x8000_0000_0000_0000) by { lemma2_to64_rest(); }
    if 7 * i < 63 { lemma_pow2_strictly_increases(7 * i, 63); }
    if 7 * i < 56 { lemma_pow2_strictly_increases(7 * i, 56); }
    assert(1u64 << s == pow2(7 * i)) by { lemma_u64_shl_is_mul(1, s as u64); assert(1u64 << (s as u64) == 1u64 << s); }
    let c = b as u64;
    assert(c * pow2(7 * i) <= 0x8000_0000_0000_0000) by (nonlinear_arith)
        requires (i <= 8 && c <= 127 && pow2(7 * i) <= 0x100_0000_0000_0000) || (c <= 1 && pow2(7 * i) <= 0x8000_0000_0000_0000);
    lemma_u64_shl_is_mul(c, s as u64);
    assert(c << (s as u64) == c << s);
    if i <= 8 {
        assert(x | (c << s) == add(x, c << s)) by (bit_vector)
            requires x < (1u64 << s), c < 128, s <= 56;
    } else {
        assert(x | (c << s) == add(x, c << s)) by (bit_vector)
            requires x < (1u64 << s), c <= 1, s == 63;
    }
}

pub proof fn lemma_dec_bound(s: Seq<u8>, i: nat, acc: nat)
    requires i <= s.len()
    ensures dec_from(s, i, acc) matches Dec::Val(v, k) ==> i < k <= s.len()
    decreases s.len() - i
{
    if i < s.len() && s[i as int] >= 128 && i < 9 { lemma_dec_bound(s, i + 1, acc + (s[i as int] - 128) as nat * pow2(7 * i)); }
}
// facts about reading a length-prefixed string at the head of s
pub proof fn lemma_str(s: Seq<u8>)
    ensures
        dec(s) matches Dec::Val(v, k) ==> 0 < k <= s.len(),
        forall|a: int, b: int| 0 <= a && 0 <= b && a + b <= s.len() ==> #[trigger] s.skip(a).skip(b) == s.skip(a + b),
        forall|a: int| 0 <= a <= s.len() ==> (#[trigger] s.skip(a)).len() == s.len() - a,
{
    lemma_dec_bound(s, 0, 0);
    assert forall|a: int, b: int| 0 <= a && 0 <= b && a + b <= s.len() implies #[trigger] s.skip(a).skip(b) == s.skip(a + b) by {
        assert(s.skip(a).skip(b) =~= s.skip(a + b));
    }
}

// ---- little endian ----
pub open spec fn le(v: nat, n: nat) -> Seq<u8> decreases n {
    if n == 0 { Seq::empty() } else { seq![(v % 256) as u8] + le(v / 256, (n - 1) as nat) }
}
pub open spec fn from_le(s: Seq<u8>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { s[0] as nat + 256 * from_le(s.skip(1)) }
}
pub open spec fn p256(n: nat) -> nat decreases n { if n == 0 { 1 } else { 256 * p256((n - 1) as nat) } }
pub proof fn lemma_le_len(v: nat, n: nat) ensures le(v, n).len() == n decreases n
{ if n > 0 { lemma_le_len(v / 256, (n - 1) as nat); } }
pub proof fn lemma_from_le_le(v: nat, n: nat)
    requires v < p256(n) ensures from_le(le(v, n)) == v, le(v, n).len() == n decreases n
{
    if n > 0 {
        let w = v / 256;
        assert(w < p256((n - 1) as nat)) by (nonlinear_arith) requires v < 256 * p256((n - 1) as nat), w == v / 256;
        lemma_from_le_le(w, (n - 1) as nat);
        assert(le(v, n).skip(1) =~= le(w, (n - 1) as nat));
    }
}
pub proof fn lemma_from_le_bound(s: Seq<u8>) ensures from_le(s) < p256(s.len()) decreases s.len()
{
    if s.len() > 0 {
        lemma_from_le_bound(s.skip(1));
        assert(s[0] as nat + 256 * from_le(s.skip(1)) < 256 * p256((s.len() - 1) as nat)) by (nonlinear_arith)
            requires from_le(s.skip(1)) < p256((s.len() - 1) as nat), s[0] < 256;
    }
}
pub proof fn lemma_p256() ensures p256(0) == 1, p256(1) == 0x100, p256(2) == 0x1_0000, p256(4) == 0x1_0000_0000,
    p256(8) == 0x1_0000_0000_0000_0000, p256(16) == 0x1_0000_0000_0000_0000_0000_0000_0000_0000
{
    reveal_with_fuel(p256, 17);
}
"""
