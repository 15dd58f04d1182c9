"""Compressed frames: decompress_buffer and the reader over a sequence of frames."""
from . import cols as K

F = "src/types/block/compressed.rs"

SPEC = """
// ---- compressed frames ----
pub uninterp spec fn cityhash(b: Seq<u8>) -> (u64, u64);
pub uninterp spec fn lz4dec(comp: Seq<u8>, n: nat) -> Option<Seq<u8>>;      // what comp decompresses to, given room for exactly n bytes
pub open spec fn lz4(comp: Seq<u8>, plain: Seq<u8>) -> bool { lz4dec(comp, plain.len()) == Some(plain) }
pub open spec fn frame_body(comp: Seq<u8>, plain: Seq<u8>) -> Seq<u8> { seq![0x82u8] + le(comp.len() + 9, 4) + le(plain.len(), 4) + comp }
pub open spec fn frame(comp: Seq<u8>, plain: Seq<u8>) -> Seq<u8> { le(cityhash(frame_body(comp, plain)).0 as nat, 8) + le(cityhash(frame_body(comp, plain)).1 as nat, 8) + frame_body(comp, plain) }
// a frame at the head of `s`: its contents and its length; More: not all of it is there; Bad: not a frame
pub enum Fr { Val(Seq<u8>, nat), More, Bad }
pub open spec fn frame_at(s: Seq<u8>) -> Fr {
    if s.len() < 17 { Fr::More } else if s[16] != 0x82 { Fr::Bad } else if s.len() < 25 { Fr::More } else {
        let c = from_le(s.subrange(17, 21)); let o = from_le(s.subrange(21, 25));
        if c > 0x4000_0000 || c < 9 { Fr::Bad } else if s.len() < 16 + c { Fr::More }
        else if cityhash(s.subrange(16, 16 + c as int)) != (from_le(s.subrange(0, 8)) as u64, from_le(s.subrange(8, 16)) as u64) { Fr::Bad }
        else if o > 0x7fff_ffff { Fr::Bad }
        else { match lz4dec(s.subrange(25, 16 + c as int), o) { Some(p) => Fr::Val(p, 16 + c), None => Fr::Bad } }
    }
}
// the contents of the frames at the head of `s`, joined
pub open spec fn unframe(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    match frame_at(s) { Fr::Val(p, n) => if 0 < n <= s.len() { p + unframe(s.skip(n as int)) } else { Seq::empty() }, _ => Seq::empty() }
}
pub struct UInt128 { pub lo: u64, pub hi: u64 }
#[verifier::external_body] pub fn city_hash_128(b: &Vec<u8>) -> (r: UInt128) ensures (r.lo, r.hi) == cityhash(b@) { unimplemented!() }
// derived (in)equality of the two halves
pub fn same_hash(a: UInt128, b: UInt128) -> (r: bool) ensures r == ((a.lo, a.hi) == (b.lo, b.hi)) { a.lo == b.lo && a.hi == b.hi }
// io::Cursor over a Vec<u8>: writes overwrite in place
#[verifier::external_body] pub fn put_u8(b: &mut Vec<u8>, pos: &mut usize, x: u8)
    requires *old(pos) + 1 <= old(b)@.len()
    ensures *final(pos) == *old(pos) + 1, final(b)@.len() == old(b)@.len(), final(b)@ == old(b)@.take(*old(pos) as int) + seq![x] + old(b)@.skip(*old(pos) + 1) { unimplemented!() }
#[verifier::external_body] pub fn put_u32(b: &mut Vec<u8>, pos: &mut usize, x: u32)
    requires *old(pos) + 4 <= old(b)@.len()
    ensures *final(pos) == *old(pos) + 4, final(b)@.len() == old(b)@.len(), final(b)@ == old(b)@.take(*old(pos) as int) + le(x as nat, 4) + old(b)@.skip(*old(pos) + 4) { unimplemented!() }
// LZ4 (dependency): decompression of the bytes from `at` on, n of them, into room for `cap` bytes
#[verifier::external_body] pub fn lz4_decompress_at(src: &Vec<u8>, at: usize, dst: &mut Vec<u8>, n: i32, cap: i32) -> (r: i32)
    requires 0 <= n, at + n == src@.len(), cap >= 0 ==> cap <= old(dst)@.len()
    ensures final(dst)@.len() == old(dst)@.len(), cap < 0 ==> r < 0, r <= cap || r < 0,
        cap >= 0 && old(dst)@.len() == cap ==> ((r == cap) == (lz4dec(src@.skip(at as int), cap as nat) is Some)) && (r == cap ==> lz4dec(src@.skip(at as int), cap as nat) == Some(final(dst)@)) { unimplemented!() }
impl vstd::std_specs::convert::FromSpecImpl<String> for Error {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: String) -> Error { arbitrary() }
}
impl From<String> for Error { #[verifier::external_body] fn from(e: String) -> (r: Error) ensures !is_would_block(r) { unimplemented!() } }
// impl From<Error> for io::Error (the orphan rule keeps it a function here)
pub fn io_err(e: Error) -> (r: io::Error) ensures (r.k == io::ErrorKind::WouldBlock) == is_would_block(e) { match e { Error::Io(x) => x, _ => io::Error { k: io::ErrorKind::Other } } }
#[verifier::external_body] pub fn slice_mut_from(b: &mut Vec<u8>, at: usize) -> (r: &mut [u8])
    requires at <= old(b)@.len()
    ensures r@ == old(b)@.skip(at as int), final(r)@.len() == r@.len() ==> final(b)@ == old(b)@.take(at as int) + final(r)@ { unimplemented!() }
// core::mem::replace
pub fn mem_replace<T>(dest: &mut T, src: T) -> (r: T) ensures *final(dest) == src, r == *old(dest) { let mut s = src; core::mem::swap(dest, &mut s); s }
// io::Cursor<Vec<u8>> (dependency); one made by new() and only read from stays inside its data
mod iocur {
    use super::*;
    pub struct IoCursor { data: Vec<u8>, pos: u64 }
    impl IoCursor {
        #[verifier::type_invariant] spec fn inside(self) -> bool { self.pos <= self.data@.len() }
        pub closed spec fn all(&self) -> Seq<u8> { self.data@ }
        pub closed spec fn at(&self) -> nat { self.pos as nat }
        pub open spec fn left(&self) -> Seq<u8> { self.all().skip(self.at() as int) }
        pub fn new(data: Vec<u8>) -> (r: IoCursor) ensures r.all() == data@, r.at() == 0, r.left() == data@ { proof { assert(data@.skip(0) =~= data@); } IoCursor { data, pos: 0 } }
        pub fn get_ref(&self) -> (r: &Vec<u8>) ensures r@ == self.all() { &self.data }
        pub fn position(&self) -> (r: u64) ensures r == self.at(), self.at() <= self.all().len() { proof { use_type_invariant(self); } self.pos }
        pub fn into_inner(self) -> (r: Vec<u8>) ensures r@ == self.all() { self.data }
        #[verifier::external_body] pub fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>)
            ensures final(buf)@.len() == old(buf)@.len(), r matches Ok(n) && n <= old(buf)@.len() && n <= old(self).left().len()
                && (n == 0 ==> old(buf)@.len() == 0 || old(self).left().len() == 0)
                && final(buf)@ == old(self).left().take(n as int) + old(buf)@.skip(n as int) && final(self).left() == old(self).left().skip(n as int) { unimplemented!() }
    }
}
pub use iocur::IoCursor;
"""

LEMMA = """
pub proof fn lemma_le_from_le(s: Seq<u8>) ensures le(from_le(s), s.len()) == s decreases s.len()
{
    if s.len() > 0 {
        let t = s.skip(1); let r = from_le(t);
        lemma_le_from_le(t);
        assert(from_le(s) == s[0] as nat + 256 * r);
        assert(from_le(s) % 256 == s[0] && from_le(s) / 256 == r);
        assert(le(from_le(s), s.len()) =~= s);
    }
}
pub proof fn lemma_word(s: Seq<u8>, a: int, n: int)
    requires 0 <= a, 0 <= n, a + n <= s.len() ensures s.skip(a).take(n) == s.subrange(a, a + n), s.skip(a).skip(n) == s.skip(a + n)
{ assert(s.skip(a).take(n) =~= s.subrange(a, a + n)); assert(s.skip(a).skip(n) =~= s.skip(a + n)); }
// a frame this client writes is a frame it reads: contents and length come back
pub proof fn theorem_frame_roundtrip(comp: Seq<u8>, plain: Seq<u8>, rest: Seq<u8>)
    requires lz4(comp, plain), comp.len() + 9 <= 0x4000_0000, plain.len() <= 0x7fff_ffff
    ensures frame_at(frame(comp, plain) + rest) == Fr::Val(plain, frame(comp, plain).len()), unframe(frame(comp, plain) + rest) == plain + unframe(rest)
{
    let b = frame_body(comp, plain); let h = cityhash(b); let f = frame(comp, plain); let s = f + rest;
    lemma_p256();
    lemma_from_le_le(h.0 as nat, 8); lemma_from_le_le(h.1 as nat, 8); lemma_from_le_le(comp.len() + 9, 4); lemma_from_le_le(plain.len(), 4);
    assert(s.subrange(0, 8) =~= le(h.0 as nat, 8));
    assert(s.subrange(8, 16) =~= le(h.1 as nat, 8));
    assert(s.subrange(17, 21) =~= le(comp.len() + 9, 4));
    assert(s.subrange(21, 25) =~= le(plain.len(), 4));
    assert(s.subrange(16, (16 + comp.len() + 9) as int) =~= b);
    assert(s.subrange(25, (16 + comp.len() + 9) as int) =~= comp);
    assert(s.skip(f.len() as int) =~= rest);
}
// a stream cut into any number of frames reads as the whole
pub open spec fn all_frames(fs: Seq<(Seq<u8>, Seq<u8>)>) -> Seq<u8> decreases fs.len() { if fs.len() == 0 { Seq::empty() } else { frame(fs[0].0, fs[0].1) + all_frames(fs.skip(1)) } }
pub open spec fn all_plain(fs: Seq<(Seq<u8>, Seq<u8>)>) -> Seq<u8> decreases fs.len() { if fs.len() == 0 { Seq::empty() } else { fs[0].1 + all_plain(fs.skip(1)) } }
pub proof fn theorem_any_cut(fs: Seq<(Seq<u8>, Seq<u8>)>, rest: Seq<u8>)
    requires forall|i: int| 0 <= i < fs.len() ==> lz4((#[trigger] fs[i]).0, fs[i].1) && fs[i].0.len() + 9 <= 0x4000_0000 && fs[i].1.len() <= 0x7fff_ffff
    ensures unframe(all_frames(fs) + rest) == all_plain(fs) + unframe(rest) decreases fs.len()
{
    if fs.len() > 0 {
        assert forall|i: int| 0 <= i < fs.skip(1).len() implies lz4((#[trigger] fs.skip(1)[i]).0, fs.skip(1)[i].1) && fs.skip(1)[i].0.len() + 9 <= 0x4000_0000 && fs.skip(1)[i].1.len() <= 0x7fff_ffff by { assert(fs.skip(1)[i] == fs[i + 1]); }
        theorem_any_cut(fs.skip(1), rest);
        theorem_frame_roundtrip(fs[0].0, fs[0].1, all_frames(fs.skip(1)) + rest);
        assert(all_frames(fs) + rest =~= frame(fs[0].0, fs[0].1) + (all_frames(fs.skip(1)) + rest));
        assert(all_plain(fs) + unframe(rest) =~= fs[0].1 + (all_plain(fs.skip(1)) + unframe(rest)));
    } else { assert(all_frames(fs) + rest =~= rest); assert(all_plain(fs) + unframe(rest) =~= unframe(rest)); }
}
"""

MSG = [(r'format!\([^;]*?\);', "String::new();", "message text of an error replaced by the empty string"),
       (r'"[^"]*"\.to_string\(\)', "String::new()", "message text of an error replaced by the empty string")]


def frames(u):
    u.text(SPEC)
    u.text(LEMMA)
    u.item(F, "const DBMS_MAX_COMPRESSED_SIZE")
    u.item(F, "struct CompressedReader", rewrites=[K.PUBF, (r"io::Cursor<Vec<u8>>", "IoCursor", "io::Cursor through a stub")])
    u.fn(F, "fn raise_error", vis="pub", spec="ensures !is_would_block(r)", rewrites=[(r"message\.into\(\)", "Error::from(message)", "x.into() written as Error::from(x)")])
    u.fn(F, "fn decompress_buffer", vis="pub", sig=[(r"mut buffer: Vec<u8>", "buffer: Vec<u8>", "")], rewrites=MSG + [
        (r"io::Cursor::new\(&mut buffer\)", "0usize", "io::Cursor as a position"),
        (r"cursor\.write_u8\((.*?)\)\?", r"put_u8(&mut buffer, &mut cursor, \1)", "io::Cursor write through a stub (infallible with room)"),
        (r"cursor\.write_u32::<LittleEndian>\((.*?)\)\?", r"put_u32(&mut buffer, &mut cursor, \1)", "io::Cursor write through a stub (infallible with room)"),
        (r"&mut buffer\[(\w+)\.\.\]", r"slice_mut_from(&mut buffer, \1)", "slicing through a stub"),
        (r"\bh != city_hash_128\(&buffer\)", "!same_hash(h, city_hash_128(&buffer))", "derived inequality of UInt128"),
        (r"let data = vec!\[", "let mut data = vec![", "written through a pointer in the source"),
        (r"unsafe \{", "{", "unsafe block around calls of stubs"),
        (r"LZ4_decompress_safe\(\s*\(buffer\.as_mut_ptr\(\) as \*const c_char\)\.add\((\d+)\),\s*data\.as_ptr\(\) as \*mut c_char,\s*(.*?) as c_int,\s*(\w+) as c_int,?\s*\)", r"lz4_decompress_at(&buffer, \1, &mut data, \2 as i32, \3 as i32)", "LZ4 FFI call through a stub (pointers replaced by vector and offset)"),
        ],
        spec="""ensures final(reader).steady() == old(reader).steady(), final(reader).anchor() == old(reader).anchor(),
        r matches Ok(v) ==> (frame_at(old(reader).rest()) matches Fr::Val(p, n) && v@ == p && 25 <= n <= old(reader).rest().len() && final(reader).rest() == old(reader).rest().skip(n as int)),
        old(reader).steady() ==> match frame_at(old(reader).rest()) { Fr::Val(p, n) => r is Ok, Fr::More => r is Err && is_would_block(r->Err_0), Fr::Bad => r is Err && !is_would_block(r->Err_0) }""",
        hints=[("start", "", "let mut buffer = buffer; let ghost s = reader.rest(); proof { lemma_p256(); lemma_str(s); }"),
               ("before", r"let method", "proof { if s.len() >= 16 { lemma_word(s, 0, 8); lemma_word(s, 8, 8); lemma_from_le_bound(s.subrange(0, 8)); lemma_from_le_bound(s.subrange(8, 16)); assert(s.take(8) =~= s.subrange(0, 8)); assert(s.skip(8).take(8) =~= s.subrange(8, 16)); } }"),
               ("after", r"let method: u8 = reader\.read_scalar\(\)\?;", "proof { lemma_word(s, 16, 1); reveal_with_fuel(from_le, 2); assert(s.skip(16).take(1)[0] == s[16]); }"),
               ("before", r"if compressed > ", "proof { lemma_word(s, 17, 4); lemma_word(s, 21, 4); lemma_from_le_bound(s.subrange(17, 21)); lemma_from_le_bound(s.subrange(21, 25)); }"),
               ("before", r"if !same_hash", """proof {
                   let c = compressed as int;
                   lemma_word(s, 25, c - 9);
                   assert(le(compressed as nat, 4) =~= s.subrange(17, 21)) by { lemma_le_from_le(s.subrange(17, 21)); }
                   assert(le(original as nat, 4) =~= s.subrange(21, 25)) by { lemma_le_from_le(s.subrange(21, 25)); }
                   assert(buffer@ =~= s.subrange(16, 16 + c));
                   assert(buffer@.skip(9) =~= s.subrange(25, 16 + c));
               }"""),
               ])
    u.text("""
impl<'a, R: ReadEx> CompressedReader<'a, R> {
    // bytes not delivered yet
    pub open spec fn plain(&self) -> Seq<u8> { self.cursor.left() + unframe(self.reader.rest()) }""")
    G = (F, r"impl ^impl<'a, R> CompressedReader<'a, R>")
    u.fn(*G, "fn is_empty", vis="pub", spec="ensures r == (self.cursor.left().len() == 0)")
    u.fn(*G, "fn fill", vis="pub", spec="""requires old(self).cursor.left().len() == 0
        ensures *final(final(self).reader) == *final(old(self).reader), final(self).reader.anchor() == old(self).reader.anchor(), final(self).reader.steady() == old(self).reader.steady(),
            r is Ok ==> final(self).plain() == old(self).plain() && final(self).reader.rest().len() < old(self).reader.rest().len()""",
         rewrites=[(r"mem::replace\(&mut self\.cursor, (.*?)\);", r"mem_replace(&mut self.cursor, \1);", "core::mem::replace written as a swap"), (r"io::Cursor::new", "IoCursor::new", "io::Cursor through a stub"),
                   (r"decompress_buffer\(&mut self\.reader,", "decompress_buffer(self.reader,", "reader reborrowed (ReadEx for &mut R is ReadEx for R)")],
         hints=[("after", r"self\.cursor = IoCursor::new\(tmp\);", "proof { assert(self.plain() =~= old(self).plain()); }")])
    u.text("""}
impl<'a, R: ReadEx> Read for CompressedReader<'a, R> {
    type Keep = (R, R::Anchor, bool);
    open spec fn rem(&self) -> Seq<u8> { self.plain() }
    open spec fn reliable(&self) -> bool { false }
    #[verifier::prophetic] open spec fn keeps(&self) -> (R, R::Anchor, bool) { (*final(self.reader), self.reader.anchor(), self.reader.steady()) }""")
    u.fn(F, r"impl ^impl<'a, R> Read for CompressedReader<'a, R>", "fn read", hints=[("before", r"self\.cursor\.read\(buf\)", "let ghost c0 = self.cursor; proof { assert(self.plain() =~= old(self).plain()); } let r0 = "), ("end", "", """; proof {
        if let Ok(n) = r0 { assert(old(self).plain().take(n as int) =~= c0.left().take(n as int)); assert(self.plain() =~= old(self).plain().skip(n as int)); }
    } r0""")], rewrites=[(r"self\.fill\(\)\?", "(match self.fill() { Ok(x) => x, Err(e) => return Err(io_err(e)) })", "`?` written out with From<Error> for io::Error")],
        loops=[dict(head=r"^while self\.is_empty\(\)$", spec="""
            invariant self.plain() == old(self).plain(), *final(self.reader) == *final(old(self).reader), self.reader.anchor() == old(self).reader.anchor(), self.reader.steady() == old(self).reader.steady(), buf@ == old(buf)@
            decreases self.reader.rest().len()""")])
    u.text("""}
// impl<T: Read> ReadEx for T: verified in the wire unit
impl<'a, R: ReadEx> ReadEx for CompressedReader<'a, R> {
    type Anchor = (R, R::Anchor, bool);
    open spec fn rest(&self) -> Seq<u8> { self.rem() }
    open spec fn steady(&self) -> bool { self.reliable() }
    #[verifier::prophetic] open spec fn anchor(&self) -> (R, R::Anchor, bool) { self.keeps() }
    #[verifier::external_body] fn read_bytes(&mut self, rv: &mut [u8]) -> (r: Result<()>) { unimplemented!() }
    #[verifier::external_body] fn read_scalar<V>(&mut self) -> (r: Result<V>) { unimplemented!() }
    #[verifier::external_body] fn read_uvarint(&mut self) -> (r: Result<u64>) { unimplemented!() }
    #[verifier::external_body] fn read_string(&mut self) -> (r: Result<String>) { unimplemented!() }
    #[verifier::external_body] fn skip_string(&mut self) -> (r: Result<()>) { unimplemented!() }
}""")
    u.fn(F, "fn make", vis="pub", rewrites=[(r"io::Cursor::new", "IoCursor::new", "io::Cursor through a stub")],
         spec="ensures *r.reader == *old(reader), *final(reader) == *final(r.reader), r.cursor.left().len() == 0")
