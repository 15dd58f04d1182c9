"""Wire layer: varints, strings, scalars, the encoder and the reader extension."""
from rsx import Unit, macro_args
from . import common as C


READ_TRAITS = """
// ---- stub of std::io::Read (dependency; assumed contract) ----
// rem(): the bytes not read yet.  A read may be short; it returns 0 only when the buffer is empty
// or nothing is left.  `reliable` readers (in-memory cursors) never fail.
pub trait Read: Sized {
    type Keep;
    spec fn rem(&self) -> Seq<u8>;
    spec fn reliable(&self) -> bool;
    #[verifier::prophetic] spec fn keeps(&self) -> Self::Keep;            // whatever else no read may change
    fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>)
        ensures
            final(self).reliable() == old(self).reliable(), final(self).keeps() == old(self).keeps(),
            final(buf)@.len() == old(buf)@.len(),
            match r {
                Ok(n) => {
                    &&& n <= old(buf)@.len() && n <= old(self).rem().len()
                    &&& n == 0 ==> old(buf)@.len() == 0 || old(self).rem().len() == 0
                    &&& final(buf)@ == old(self).rem().take(n as int) + old(buf)@.skip(n as int)
                    &&& final(self).rem() == old(self).rem().skip(n as int)
                },
                Err(e) => !old(self).reliable(),
            };
}
#[verifier::prophetic] pub open spec fn same_rd<R: Read>(a: R, b: R) -> bool { a.reliable() == b.reliable() && a.keeps() == b.keeps() }
#[verifier::prophetic] pub open spec fn same_end<R: ReadEx>(a: R, b: R) -> bool { a.steady() == b.steady() && a.anchor() == b.anchor() }
// string read at the head of s: length prefix, then that many bytes
pub open spec fn str_need(s: Seq<u8>) -> Dec { dec(s) }
pub enum StrDec { Val(Seq<u8>, nat), Overflow, Incomplete }
pub open spec fn dec_str(s: Seq<u8>) -> StrDec {
    match dec(s) {
        Dec::Val(n, k) => if s.len() < k + n { StrDec::Incomplete } else { StrDec::Val(s.skip(k as int).take(n as int), k + n as nat) },
        Dec::Overflow => StrDec::Overflow,
        Dec::Incomplete => StrDec::Incomplete,
    }
}
pub trait ReadEx: Sized {
    type Anchor;
    spec fn rest(&self) -> Seq<u8>;
    spec fn steady(&self) -> bool;
    #[verifier::prophetic] spec fn anchor(&self) -> Self::Anchor;         // whatever else no read may change

    fn read_bytes(&mut self, rv: &mut [u8]) -> (r: Result<()>)
        ensures
            final(self).steady() == old(self).steady(), final(self).anchor() == old(self).anchor(),
            final(rv)@.len() == old(rv)@.len(),
            r is Ok ==> {
                &&& old(self).rest().len() >= old(rv)@.len()
                &&& final(rv)@ == old(self).rest().take(old(rv)@.len() as int)
                &&& final(self).rest() == old(self).rest().skip(old(rv)@.len() as int)
            },
            old(self).steady() ==> (r is Ok <==> old(self).rest().len() >= old(rv)@.len()),
            old(self).steady() && r is Err ==> is_would_block(r->Err_0);

    fn read_scalar<V>(&mut self) -> (r: Result<V>)
        where V: Copy + Unmarshal<V> + StatBuffer
        ensures
            final(self).steady() == old(self).steady(), final(self).anchor() == old(self).anchor(),
            r is Ok ==> {
                &&& old(self).rest().len() >= V::width()
                &&& r->Ok_0 == V::of_bytes(old(self).rest().take(V::width() as int))
                &&& final(self).rest() == old(self).rest().skip(V::width() as int)
            },
            old(self).steady() ==> (r is Ok <==> old(self).rest().len() >= V::width()),
            old(self).steady() && r is Err ==> is_would_block(r->Err_0);

    fn read_uvarint(&mut self) -> (r: Result<u64>)
        ensures
            final(self).steady() == old(self).steady(), final(self).anchor() == old(self).anchor(),
            r is Ok ==> (dec(old(self).rest()) matches Dec::Val(v, n) && r->Ok_0 == v && final(self).rest() == old(self).rest().skip(n as int)),
            old(self).steady() ==> match dec(old(self).rest()) {
                Dec::Val(v, n) => r is Ok,
                Dec::Overflow => r is Err && is_overflow(r->Err_0),
                Dec::Incomplete => r is Err && is_would_block(r->Err_0),
            };

    fn read_string(&mut self) -> (r: Result<String>)
        ensures
            final(self).steady() == old(self).steady(), final(self).anchor() == old(self).anchor(),
            r is Ok ==> (dec_str(old(self).rest()) matches StrDec::Val(b, n) && encode_utf8(r->Ok_0@) == b && final(self).rest() == old(self).rest().skip(n as int)),
            old(self).steady() ==> match dec_str(old(self).rest()) {
                StrDec::Val(b, n) => (r is Ok <==> valid_utf8(b)) && (r is Err ==> !is_would_block(r->Err_0)),
                StrDec::Overflow => r is Err && is_overflow(r->Err_0),
                StrDec::Incomplete => r is Err && is_would_block(r->Err_0),
            };

    fn skip_string(&mut self) -> (r: Result<()>)
        ensures
            final(self).steady() == old(self).steady(), final(self).anchor() == old(self).anchor(),
            r is Ok ==> (dec_str(old(self).rest()) matches StrDec::Val(b, n) && final(self).rest() == old(self).rest().skip(n as int)),
            old(self).steady() ==> match dec_str(old(self).rest()) {
                StrDec::Val(b, n) => r is Ok,
                StrDec::Overflow => r is Err && is_overflow(r->Err_0),
                StrDec::Incomplete => r is Err && is_would_block(r->Err_0),
            };
}
// ---- byte views of the fixed scratch buffers (std AsRef/AsMut on arrays and str; assumed) ----
pub trait ScratchMut { spec fn b(&self) -> Seq<u8>; fn as_mut(&mut self) -> (r: &mut [u8])
    ensures r@ == old(self).b(), final(r)@.len() == old(self).b().len() ==> final(self).b() == final(r)@; }
pub trait ScratchRef { spec fn b2(&self) -> Seq<u8>; fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.b2(); }
impl<const N: usize> ScratchMut for [u8; N] { open spec fn b(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn as_mut(&mut self) -> (r: &mut [u8]) { &mut self[..] } }
impl<const N: usize> ScratchRef for [u8; N] { open spec fn b2(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn as_ref(&self) -> (r: &[u8]) { &self[..] } }

pub trait StatBuffer: Sized {
    type Buffer: ScratchMut + ScratchRef + Copy;
    spec fn width() -> nat;
    proof fn widths() where Self: Unmarshal<Self> + Copy ensures <Self as Unmarshal<Self>>::uwidth() == Self::width();
    proof fn same_view(b: Self::Buffer) ensures b.b() == b.b2();
    fn buffer() -> (r: Self::Buffer) ensures r.b().len() == Self::width();
}
pub trait Marshal: Sized {
    spec fn mwidth() -> nat;
    spec fn bytes(self) -> Seq<u8>;
    fn marshal(&self, scratch: &mut [u8])
        requires old(scratch)@.len() == Self::mwidth()
        ensures final(scratch)@ == self.bytes(), final(scratch)@.len() == Self::mwidth();
}
pub trait Unmarshal<T: Copy> {
    spec fn uwidth() -> nat;
    spec fn of_bytes(s: Seq<u8>) -> T;
    fn unmarshal(scratch: &[u8]) -> (r: T)
        requires scratch@.len() == Self::uwidth()
        ensures r == Self::of_bytes(scratch@);
}
"""


def build():
    u = Unit("wire", rewrites=C.COMMON_RW)
    u.text(C.HEADER + "verus! {\nglobal size_of usize == 8;\n")
    C.errors(u)
    u.text(C.WIRE_SPEC)
    u.text(READ_TRAITS)
    put_uvarint(u)
    scalars(u)
    u.text(FLOAT_SPEC)
    floats(u)
    readex(u)
    encoder(u)
    u.text(ROUNDTRIP)
    u.text("} fn main() {}")
    return u


RX = ("src/binary/read_ex.rs", "impl ReadEx for T")


def readex(u):
    u.item("src/binary/read_ex.rs", "const MAX_STACK_BUFFER_LEN")
    u.text("""
pub assume_specification [String::from_utf8](v: Vec<u8>) -> (r: core::result::Result<String, std::string::FromUtf8Error>)
    ensures r is Ok <==> valid_utf8(v@), r is Ok ==> encode_utf8(r->Ok_0@) == v@;
impl<T> ReadEx for T where T: Read {
    type Anchor = T::Keep;
    #[verifier::prophetic] open spec fn anchor(&self) -> T::Keep { self.keeps() }
    open spec fn rest(&self) -> Seq<u8> { self.rem() }
    open spec fn steady(&self) -> bool { self.reliable() }
""")
    u.fn(*RX, "fn read_bytes", loops=[dict(head=r"^while i < rv\.len\(\)$", spec="""
        invariant i <= rv@.len(), rv@.len() == old(rv)@.len(), i <= old(self).rem().len(),
            same_rd(*self, *old(self)),
            self.rem() == old(self).rem().skip(i as int),
            rv@.take(i as int) == old(self).rem().take(i as int),
        decreases rv@.len() - i as int""",
        start="let ghost rem0 = self.rem(); let ghost rv0 = rv@;",
        after="proof { assert(rv@ =~= old(self).rem().take(i as int)); }")],
        rewrites=[(r"Err\(From::from\(e\)\)", "Err(Error::from(e))", "From::from(e) written with its target type"),
                  (r"return Err\(ret\.into\(\)\)", "return Err(Error::from(ret))", "x.into() written as Error::from(x)"),
                  (r"Ok\(nread\) => i \+= nread,", """Ok(nread) => { i += nread; proof {
              assert(self.rem() =~= old(self).rem().skip(i as int));
              assert(rv@.take(i as int) =~= old(self).rem().take(i as int)); } }""", "match arm `i += nread` braced to hold a proof block")])
    u.fn(*RX, "fn read_scalar", rewrites=[
        (r"buffer\.as_mut\(\)", "ScratchMut::as_mut(&mut buffer)", "AsMut on the scratch array through the stub trait"),
        (r"buffer\.as_ref\(\)", "ScratchRef::as_ref(&buffer)", "AsRef on the scratch array through the stub trait")],
        hints=[("before", r"Ok\(V::unmarshal", "proof { V::same_view(buffer); V::widths(); }")])
    STR = [("start", "", "proof { lemma_str(self.rem()); }")]
    u.fn(*RX, "fn read_string", rewrites=VECMUT, hints=STR)
    u.fn(*RX, "fn skip_string", hints=STR, rewrites=VECMUT + [
        (r"unsafe \{.*?MaybeUninit.*?;\s*\}\s*\} else", "{ let mut buffer = [0u8; MAX_STACK_BUFFER_LEN]; self.read_bytes(&mut buffer[..str_len])?; } } else",
         "skip_string: uninitialised stack scratch buffer replaced by a zeroed one (contents are discarded)")])
    u.fn(*RX, "fn read_uvarint", loops=[dict(head="^loop$", spec="""
        invariant i <= 9, s == 7 * i, x < pow2((7 * i) as nat), same_rd(*self, *old(self)),
            i <= old(self).rem().len(),
            self.rem() == old(self).rem().skip(i as int),
            dec(old(self).rem()) == dec_from(old(self).rem(), i as nat, x as nat),
        decreases 10 - i""",
        start="""let ghost rem0 = self.rem();""",
        before="proof { assert(pow2(0) == 1) by { lemma2_to64(); } assert(old(self).rem().skip(0) =~= old(self).rem()); }")],
        hints=[("after", r"let b: u8 = self\.read_scalar\(\)\?;", """proof {
             assert(rem0.take(1)[0] == b) by { reveal_with_fuel(from_le, 2); }
             assert(old(self).rem()[i as int] == b);
             assert(self.rem() =~= old(self).rem().skip(i + 1));
             if b < 128 && !(i == 9 && b > 1) { lemma_acc_last(x, b, s, i as nat); }
             if b >= 128 && i <= 8 { lemma_acc_step(x, b, s, i as nat); }
          }""")],
        rewrites=[(r"u64::from\(([^()]*)\)", r"((\1) as u64)", "u64::from(u8) written as a lossless cast")])
    u.text("}")


VECMUT = [(r"buffer\.as_mut\(\)", "buffer.as_mut_slice()", "AsMut<[u8]> for Vec<u8> is as_mut_slice"),
          (r"Ok\(String::from_utf8\(buffer\)\?\)", "match String::from_utf8(buffer) { Ok(x) => Ok(x), Err(e) => Err(Error::from(e)) }", "`?` on a foreign error written out with Error::from")]


INTS = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "u128": 16, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "i128": 16}

SLICE_SPECS = """
pub assume_specification<T: Clone> [<[T]>::clone_from_slice](dst: &mut [T], src: &[T])
    requires old(dst)@.len() == src@.len()
    ensures final(dst)@.len() == src@.len(), forall|i: int| 0 <= i < src@.len() ==> cloned(#[trigger] src@[i], final(dst)@[i]);
"""


def scalars(u, only=None):
    u.text(SLICE_SPECS)
    for t, n in INTS.items():
        if only and t not in only:
            continue
        scalar(u, t, n)
    # bool
    u.text("""
impl StatBuffer for bool {
    type Buffer = [u8; 1];
    open spec fn width() -> nat { 1 }
    proof fn widths() {}
    proof fn same_view(b: [u8; 1]) {}""")
    u.fn("src/types/stat_buffer.rs", "impl ^impl StatBuffer for bool$", "fn buffer")
    u.text("""}
impl Unmarshal<bool> for bool {
    open spec fn uwidth() -> nat { 1 }
    open spec fn of_bytes(s: Seq<u8>) -> bool { s[0] != 0 }""")
    u.fn("src/types/unmarshal.rs", "impl ^impl Unmarshal<bool> for bool$", "fn unmarshal")
    u.text("""}
impl Marshal for bool {
    open spec fn mwidth() -> nat { 1 }
    open spec fn bytes(self) -> Seq<u8> { seq![if self { 1u8 } else { 0u8 }] }""")
    u.fn("src/types/marshal.rs", "impl ^impl Marshal for bool$", "fn marshal",
         hints=[("end", "", "proof { assert(scratch@ =~= self.bytes()); }")])
    u.text("}")
    u.text("""proof fn lemma_scalar_roundtrip_bool(v: bool) ensures bool::of_bytes(v.bytes()) == v, v.bytes().len() == bool::width() {}""")


def scalar(u, t, n):
    signed = t[0] == "i"
    bits = 8 * n
    uv = f"(if self < 0 {{ (self + p256({n})) as nat }} else {{ self as nat }})" if signed else "(self as nat)"
    half = f"0x{1 << (bits - 1):x}"
    ov = (f"{{ let x = from_le(s) as int; if x < {half} {{ x as {t} }} else {{ (x - p256({n})) as {t} }} }}"
          if signed else f"{{ from_le(s) as {t} }}")
    u.text(f"""
#[verifier::external_body] pub fn to_le_bytes_{t}(v: {t}) -> (r: [u8; {n}]) ensures r@ == v.bytes() {{ v.to_le_bytes() }}
#[verifier::external_body] pub fn from_le_bytes_{t}(v: [u8; {n}]) -> (r: {t}) ensures r == <{t} as Unmarshal<{t}>>::of_bytes(v@) {{ {t}::from_le_bytes(v) }}
impl StatBuffer for {t} {{
    type Buffer = [u8; {n}];
    open spec fn width() -> nat {{ {n} }}
    proof fn widths() {{}}
    proof fn same_view(b: [u8; {n}]) {{}}""")
    u.fn("src/types/stat_buffer.rs", f"impl ^impl StatBuffer for {t}$", "fn buffer")
    u.text(f"""}}
impl Unmarshal<{t}> for {t} {{
    open spec fn uwidth() -> nat {{ {n} }}
    open spec fn of_bytes(s: Seq<u8>) -> {t} {ov}""")
    u.fn("src/types/unmarshal.rs", f"macro_expand int_unmarshals t={t}", f"impl Unmarshal<{t}> for {t}", "fn unmarshal",
         rewrites=[(r"std::mem::size_of::<Self>\(\)", str(n), "size_of::<Self>() of an integer written as its value"),
                   (r"\bSelf::from_le_bytes\(", f"from_le_bytes_{t}(", "iN::from_le_bytes through a stub carrying the little-endian contract")],
         hints=[("after", r"clone_from_slice\(scratch\);", "proof { assert(buffer@ =~= scratch@); }")])
    u.text(f"""}}
impl Marshal for {t} {{
    open spec fn mwidth() -> nat {{ {n} }}
    open spec fn bytes(self) -> Seq<u8> {{ le({uv}, {n}) }}""")
    u.fn("src/types/marshal.rs", f"macro_expand int_marshals t={t}", f"impl Marshal for {t}", "fn marshal",
         rewrites=[(r"\bself\.to_le_bytes\(\)", f"to_le_bytes_{t}(*self)", "iN::to_le_bytes through a stub carrying the little-endian contract")],
         hints=[("end", "", f"proof {{ lemma_le_len({uv.replace('self', '*self')}, {n}); assert(scratch@ =~= self.bytes()); }}")])
    u.text(f"""}}
proof fn lemma_scalar_roundtrip_{t}(v: {t}) ensures {t}::of_bytes(v.bytes()) == v, v.bytes().len() == {t}::width()
{{ lemma_p256(); lemma_from_le_le({uv.replace('self', 'v')}, {n}); }}
""")


FLOAT_SPEC = "".join(f"""
pub uninterp spec fn {t}_bits(f: {t}) -> {b};
pub uninterp spec fn {t}_of(b: {b}) -> {t};
#[verifier::external_body] pub proof fn axiom_{t}_bits() ensures forall|b: {b}| #[trigger] {t}_bits({t}_of(b)) == b, forall|f: {t}| {t}_of(#[trigger] {t}_bits(f)) == f {{}}
""" for t, b in (("f32", "u32"), ("f64", "u64")))


def floats(u):
    """f32 / f64: the bit pattern, little endian (to_bits/from_bits assumed to be inverse bijections)"""
    for t, b, n in (("f32", "u32", 4), ("f64", "u64", 8)):
        u.text(f"""
#[verifier::external_body] pub fn to_bits_{t}(v: {t}) -> (r: {b}) ensures r == {t}_bits(v) {{ v.to_bits() }}
#[verifier::external_body] pub fn from_bits_{t}(v: {b}) -> (r: {t}) ensures r == {t}_of(v) {{ {t}::from_bits(v) }}
impl StatBuffer for {t} {{
    type Buffer = [u8; {n}];
    open spec fn width() -> nat {{ {n} }}
    proof fn widths() {{}}
    proof fn same_view(b: [u8; {n}]) {{}}""")
        u.fn("src/types/stat_buffer.rs", f"impl ^impl StatBuffer for {t}$", "fn buffer")
        u.text(f"""}}
impl Unmarshal<{t}> for {t} {{
    open spec fn uwidth() -> nat {{ {n} }}
    open spec fn of_bytes(s: Seq<u8>) -> {t} {{ {t}_of(<{b} as Unmarshal<{b}>>::of_bytes(s)) }}""")
        u.fn("src/types/unmarshal.rs", f"macro_expand float_unmarshals t={t},b={b}", f"impl Unmarshal<{t}> for {t}", "fn unmarshal",
             rewrites=[(r"std::mem::size_of::<Self>\(\)", str(n), "size_of::<Self>() of a float written as its value"),
                       (rf"\b{b}::from_le_bytes\(", f"from_le_bytes_{b}(", "uN::from_le_bytes through a stub carrying the little-endian contract"),
                       (r"\bSelf::from_bits\(", f"from_bits_{t}(", "float from_bits through a stub")],
             hints=[("after", r"clone_from_slice\(scratch\);", "proof { assert(buffer@ =~= scratch@); }")])
        u.text(f"""}}
impl Marshal for {t} {{
    open spec fn mwidth() -> nat {{ {n} }}
    open spec fn bytes(self) -> Seq<u8> {{ {t}_bits(self).bytes() }}""")
        u.fn("src/types/marshal.rs", f"macro_expand float_marshals t={t}", f"impl Marshal for {t}", "fn marshal",
             rewrites=[(r"\bself\.to_bits\(\)", f"to_bits_{t}(*self)", "float to_bits through a stub"),
                       (r"\bbits\.to_le_bytes\(\)", f"to_le_bytes_{b}(bits)", "uN::to_le_bytes through a stub carrying the little-endian contract")],
             hints=[("end", "", f"proof {{ lemma_le_len({t}_bits(*self) as nat, {n}); assert(scratch@ =~= self.bytes()); }}")])
        u.text(f"""}}
proof fn lemma_scalar_roundtrip_{t}(v: {t}) ensures {t}::of_bytes(v.bytes()) == v, v.bytes().len() == {t}::width() {{ axiom_{t}_bits(); lemma_scalar_roundtrip_{b}({t}_bits(v)); }}
""")


ASREF = """
pub trait AsRefStr { spec fn chars(&self) -> Seq<char>; fn as_ref(&self) -> (r: &str) ensures r@ == self.chars(); }
pub trait AsRefBytes { spec fn bs(&self) -> Seq<u8>; fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.bs(); }
impl<'a> AsRefStr for &'a str { open spec fn chars(&self) -> Seq<char> { self@ } fn as_ref(&self) -> (r: &str) { *self } }
impl AsRefStr for String { open spec fn chars(&self) -> Seq<char> { self@ } fn as_ref(&self) -> (r: &str) { self.as_str() } }
impl<'a> AsRefStr for &'a String { open spec fn chars(&self) -> Seq<char> { self@ } fn as_ref(&self) -> (r: &str) { self.as_str() } }
impl<'a> AsRefBytes for &'a [u8] { open spec fn bs(&self) -> Seq<u8> { self@ } fn as_ref(&self) -> (r: &[u8]) { *self } }
impl AsRefBytes for Vec<u8> { open spec fn bs(&self) -> Seq<u8> { self@ } fn as_ref(&self) -> (r: &[u8]) { self.as_slice() } }
pub open spec fn enc_bytes(b: Seq<u8>) -> Seq<u8> { enc(b.len()) + b }
pub open spec fn enc_str(c: Seq<char>) -> Seq<u8> { enc_bytes(encode_utf8(c)) }
"""
E_ = ("src/binary/encoder.rs", "impl ^impl Encoder$")


def encoder(u):
    u.text(ASREF)
    u.item("src/binary/encoder.rs", "const MAX_VARINT_LEN64")
    u.text("pub struct Encoder { pub buffer: Vec<u8> }\nimpl View for Encoder { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.buffer@ } }\nimpl Encoder {")
    sigs = [(r"impl AsRef<str>", "impl AsRefStr", "impl AsRef<str> bound through a stub trait"),
            (r"impl AsRef<\[u8\]>", "impl AsRefBytes", "impl AsRef<[u8]> bound through a stub trait")]
    u.fn(*E_, "fn new", vis="pub", spec="ensures r@.len() == 0, r@ =~= Seq::empty()")
    u.fn(*E_, "fn uvarint", vis="pub", spec="ensures final(self)@ == old(self)@ + enc(v as nat)",
         rewrites=[(r"binary::put_uvarint", "put_uvarint", "module path")],
         hints=[("after", r"put_uvarint\([^;]*;", "proof { assert(scratch@.take(ln as int) =~= enc(v as nat)); assert(scratch@.subrange(0, ln as int) =~= enc(v as nat)); }")])
    u.fn(*E_, "fn string", vis="pub", sig=sigs, spec="ensures final(self)@ == old(self)@ + enc_str(text.chars())")
    u.fn(*E_, "fn byte_string", vis="pub", sig=sigs, spec="ensures final(self)@ == old(self)@ + enc_bytes(source.bs())",
         hints=[("end", "", "proof { assert(self@ =~= old(self)@ + enc_bytes(source.bs())); }")])
    u.fn(*E_, "fn write", vis="pub", spec="requires T::mwidth() == T::width() ensures final(self)@ == old(self)@ + value.bytes(),",
         rewrites=[(r"buffer\.as_mut\(\)", "ScratchMut::as_mut(&mut buffer)", "AsMut on the scratch array through the stub trait"),
                   (r"buffer\.as_ref\(\)", "ScratchRef::as_ref(&buffer)", "AsRef on the scratch array through the stub trait")],
         hints=[("before", r"self\.write_bytes", "proof { T::same_view(buffer); }")])
    u.fn(*E_, "fn write_bytes", vis="pub", spec="ensures final(self)@ == old(self)@ + b@")
    u.fn(*E_, "fn get_buffer", vis="pub", spec="ensures r@ == self@")
    u.fn(*E_, "fn get_buffer_ref", vis="pub", spec="ensures r@ == self@",
         rewrites=[(r"self\.buffer\.as_ref\(\)", "self.buffer.as_slice()", "AsRef<[u8]> for Vec<u8> is as_slice")])
    u.text("}")


ROUNDTRIP = ""


def put_uvarint(u):
    u.fn("src/binary/uvarint.rs", "fn put_uvarint", vis="pub",
         sig=[(r"mut buffer: impl AsMut<\[u8\]>", "buffer: &mut [u8]",
               "put_uvarint's `impl AsMut<[u8]>` instantiated at &mut [u8] (its only call site)")],
         rewrites=[(r"buffer\.as_mut\(\)", "buffer", "AsMut<[u8]> for &mut [u8] is the identity")],
         spec="""
  requires old(buffer)@.len() >= 10
  ensures r == enc(x as nat).len(), r <= 10, final(buffer)@ == enc(x as nat) + old(buffer)@.skip(r as int)""",
         loops=[dict(head=r"^while mx >= 0x80$|^while mx > 0x7f$|^while mx >= 128$", spec="""
      invariant i <= 9, buf@.len() == old(buffer)@.len(), buf@.len() >= 10,
        enc(x as nat) == buf@.take(i as int) + enc(mx as nat),
        forall|j: int| i as int <= j < buf@.len() ==> buf@[j] == old(buffer)@[j],
        enc(mx as nat).len() <= 10 - i as int,
      decreases mx""",
              start="""proof {
          assert((mx as u8 | 0x80) == (mx % 128) as u8 + 128) by (bit_vector);
          assert(mx >> 7 == mx / 128) by (bit_vector);
          assert(enc(mx as nat) =~= seq![(mx % 128 + 128) as u8] + enc((mx / 128) as nat));
          lemma_enc_pos((mx / 128) as nat);
        }""",
              end="proof { assert(enc(x as nat) =~= buf@.take(i as int) + enc(mx as nat)); }",
              before="""proof {
       lemma_enc_len64(x);
       assert(buf@.take(0) =~= Seq::<u8>::empty());
       assert(enc(x as nat) =~= buf@.take(0) + enc(x as nat));
    }""")],
         hints=[("after", r"buf\[i\] = mx as u8;\s*(?=i \+ 1)", "proof { assert(buf@ =~= enc(x as nat) + old(buffer)@.skip(i + 1)); }")])
