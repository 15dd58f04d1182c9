"""Column iterators (P22): what next, nth, count and len yield, and that every read stays inside the column's memory."""
import re
from . import cols as K, dates as DT, internals as IN, iterables as IT

P = "src/types/column/iter/mod.rs"
D64 = "src/types/column/datetime64.rs"

SPEC = """
// ---- raw pointers: the memory a pointer may touch and its offset in it (a trusted stand-in for *const u8; every
// operation demands what makes the real one defined) ----
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Ptr { p: *const u8 }
impl Ptr {
    pub uninterp spec fn mem(&self) -> Seq<u8>;
    pub uninterp spec fn off(&self) -> int;
    #[verifier::external_body] pub fn add(self, n: usize) -> (r: Ptr) requires 0 <= self.off(), self.off() + n <= self.mem().len() ensures r.mem() == self.mem(), r.off() == self.off() + n { unimplemented!() }
    pub fn add_items(self, n: usize, w: usize) -> (r: Ptr) requires 0 <= self.off(), self.off() + n * w <= self.mem().len(), n * w <= usize::MAX ensures r.mem() == self.mem(), r.off() == self.off() + n * w { self.add(n * w) }
    #[verifier::external_body] pub fn slice(self, n: usize) -> (r: &'static [u8]) requires 0 <= self.off(), self.off() + n <= self.mem().len() ensures r@ == self.mem().subrange(self.off(), self.off() + n) { unimplemented!() }
    #[verifier::external_body] pub fn text(self, n: usize) -> (r: Bytes) requires 0 <= self.off(), self.off() + n <= self.mem().len() ensures r == bytes_of(self.mem().subrange(self.off(), self.off() + n)) { unimplemented!() }
    #[verifier::external_body] pub fn read(self) -> (r: u8) requires 0 <= self.off() < self.mem().len() ensures r == self.mem()[self.off()] { unimplemented!() }
    #[verifier::external_body] pub fn same(self, o: Ptr) -> (r: bool) requires self.mem() == o.mem() ensures r == (self.off() == o.off()) { unimplemented!() }
    // an allocation is at most isize::MAX bytes
    #[verifier::external_body] pub fn minus(self, o: Ptr) -> (r: usize) requires self.mem() == o.mem(), 0 <= o.off() <= self.off() <= self.mem().len() ensures r == self.off() - o.off() { unimplemented!() }
}
// a string that is handed out: its bytes
pub struct Bytes { pub b: Ghost<Seq<u8>> }
pub open spec fn bytes_of(s: Seq<u8>) -> Bytes { Bytes { b: Ghost(s) } }
pub uninterp spec fn le_int(b: Seq<u8>) -> int;        // the integer that little-endian bytes denote
pub open spec fn bytes_at(m: Seq<u8>, off: int, w: int) -> Seq<u8> { m.subrange(off, off + w) }
// a decimal cell is an i32 or an i64
pub trait Cell: Sized { spec fn cw() -> int; spec fn v(self) -> int; fn load(p: Ptr) -> (r: Self) requires 0 <= p.off(), p.off() + Self::cw() <= p.mem().len() ensures r.v() == le_int(bytes_at(p.mem(), p.off(), Self::cw()));
    fn csize() -> (r: usize) ensures r == Self::cw(); fn to64(self) -> (r: i64) ensures r == self.v(); }
impl Cell for i32 { open spec fn cw() -> int { 4 } open spec fn v(self) -> int { self as int } #[verifier::external_body] fn load(p: Ptr) -> i32 { unimplemented!() } fn csize() -> usize { 4 } fn to64(self) -> i64 { self as i64 } }
impl Cell for i64 { open spec fn cw() -> int { 8 } open spec fn v(self) -> int { self as int } #[verifier::external_body] fn load(p: Ptr) -> i64 { unimplemented!() } fn csize() -> usize { 8 } fn to64(self) -> i64 { self } }
// typed pointers to the first element of a List<T>
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Cells<T> { p: *const T }
impl<T> Copy for Cells<T> {}
impl<T> Clone for Cells<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<T: Copy> Cells<T> {
    pub uninterp spec fn cells(&self) -> Seq<T>;
    #[verifier::external_body] pub fn get(&self, i: usize) -> (r: T) requires i < self.cells().len() ensures r == self.cells()[i as int] { unimplemented!() }
}
// *const LowCardinalityIndex; get_by_index has its contract in the lowcard unit
#[verifier::external_body] #[derive(Clone, Copy)] pub struct IndexPtr { p: usize }
impl IndexPtr {
    pub uninterp spec fn keys(&self) -> Seq<usize>;
    pub uninterp spec fn live(&self) -> bool;              // not null
    #[verifier::external_body] pub fn null() -> (r: IndexPtr) ensures !r.live() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) requires self.live() ensures r == self.keys().len() { unimplemented!() }
    #[verifier::external_body] pub fn get_by_index(&self, i: usize) -> (r: usize) requires self.live(), i < self.keys().len() ensures r == self.keys()[i as int] { unimplemented!() }
}
// *const dyn LowCardinalityAccessor: the dictionary
#[verifier::external_body] #[derive(Clone, Copy)] pub struct DictPtr { p: usize }
impl DictPtr {
    pub uninterp spec fn strs(&self) -> Seq<Bytes>;
    #[verifier::external_body] pub fn get_string(&self, i: usize) -> (r: Bytes) requires i < self.strs().len() ensures r == self.strs()[i as int] { unimplemented!() }
}
// StringPool: its contract is the strings unit's
#[verifier::external_body] pub struct StringPool { p: usize }
impl StringPool {
    pub uninterp spec fn strs(&self) -> Seq<Bytes>;
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.strs().len() { unimplemented!() }
    #[verifier::external_body] pub fn get_unchecked(&self, i: usize) -> (r: Bytes) requires i < self.strs().len() ensures r == self.strs()[i as int] { unimplemented!() }
}
// ---- dependency types ----
pub struct Octets { pub o: Ghost<Seq<u8>> }
pub type Ipv4Addr = Octets; pub type Ipv6Addr = Octets; pub type Uuid = Octets;
pub open spec fn octets(s: Seq<u8>) -> Octets { Octets { o: Ghost(s) } }
#[verifier::external_body] pub fn octets_of<const N: usize>(m: [u8; N]) -> (r: Octets) ensures r == octets(m@) { unimplemented!() }
pub fn copy_from<const N: usize>(m: &mut [u8; N], v: &[u8]) requires v@.len() == N ensures final(m)@ == v@ { copy_impl(m, v) }
#[verifier::external_body] pub fn copy_impl<const N: usize>(m: &mut [u8; N], v: &[u8]) requires v@.len() == N ensures final(m)@ == v@ { m.copy_from_slice(v) }
#[verifier::external_body] pub fn reverse_part<const N: usize>(m: &mut [u8; N], a: usize, b: usize) requires a <= b <= N ensures final(m)@ == old(m)@.subrange(0, a as int) + rev(old(m)@.subrange(a as int, b as int)) + old(m)@.subrange(b as int, N as int) { m[a..b].reverse() }
pub fn reverse_from<const N: usize>(m: &mut [u8; N], a: usize) requires a <= N ensures final(m)@ == old(m)@.subrange(0, a as int) + rev(old(m)@.subrange(a as int, N as int)) { reverse_part(m, a, N); assert(m@ =~= old(m)@.subrange(0, a as int) + rev(old(m)@.subrange(a as int, N as int))); }
pub open spec fn rev(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
// IPv4: a little-endian u32 on the wire; UUID: two little-endian u64s
pub open spec fn uuid_order(s: Seq<u8>) -> Seq<u8> { rev(s.subrange(0, 8)) + rev(s.subrange(8, 16)) }
pub struct NaiveDateTime { pub secs: i64, pub nanos: u32 }
impl NaiveDateTime {
    #[verifier::external_body] pub fn from_timestamp_opt(secs: i64, nanos: u32) -> (r: Option<NaiveDateTime>) requires nanos < 1_000_000_000 ensures chrono_ok(secs as int) ==> r == Some(NaiveDateTime { secs, nanos }), !chrono_ok(secs as int) ==> r is None { unimplemented!() }
}
pub struct Utc {}
impl Utc { #[verifier::external_body] pub fn timestamp_opt(&self, secs: i64, nanos: u32) -> (r: LocalResult<AppDateTime>) requires nanos < 1_000_000_000
        ensures r is Single <==> chrono_ok(secs as int), !(r is Ambiguous), r is Single ==> r->Single_0.secs == secs && r->Single_0.nanos == nanos && r->Single_0.tz == utc_() { unimplemented!() } }
pub uninterp spec fn utc_() -> Tz;
impl AppDateTime { #[verifier::external_body] pub fn date_naive(&self) -> (r: NaiveDate) requires self.tz == utc_() ensures r.ce == 719_163 + self.secs as int / 86_400 { unimplemented!() } }
pub fn utc() -> (r: Utc) { Utc {} }
// every day of a Date column is far inside chrono's range
pub broadcast axiom fn axiom_chrono_days(s: int) requires 0 <= s < 86_400 * 0x1_0000 ensures #[trigger] chrono_ok(s);
impl ToI64 for u16 { open spec fn v64(self) -> int { self as int } fn to64(self) -> (r: i64) { self as i64 } }
// Vec and HashMap built item by item: the items pushed, the pairs inserted (a later pair replaces one with an equal key)
pub struct VecOf<T> { pub items: Ghost<Seq<T>> }
impl<T> VecOf<T> {
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r.items@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, x: T) ensures final(self).items@ == old(self).items@.push(x) { unimplemented!() }
}
pub struct MapOf<K, V> { pub pairs: Ghost<Seq<(K, V)>> }
impl<K, V> MapOf<K, V> {
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r.pairs@ == Seq::<(K, V)>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) ensures final(self).pairs@ == old(self).pairs@.push((k, v)) { unimplemented!() }
}

// ---- iterators: what is still to come ----
pub trait It: Sized {
    type Item;
    spec fn wf(&self) -> bool;
    spec fn rest(&self) -> Seq<Self::Item>;
    fn next(&mut self) -> (r: Option<Self::Item>) requires old(self).wf() ensures final(self).wf(), taken(old(self).rest(), 0, r, final(self).rest());
}
// taking item n: the item, and what comes after it; past the end there is nothing, now and later
pub open spec fn taken<T>(old_rest: Seq<T>, n: int, r: Option<T>, rest: Seq<T>) -> bool {
    if n < old_rest.len() { r == Some(old_rest[n]) && rest == old_rest.skip(n + 1) } else { r is None && rest == Seq::<T>::empty() }
}
"""

FIXED = """
pub open spec fn span_ok(ptr: Ptr, end: Ptr, w: int) -> bool { ptr.mem() == end.mem() && 0 <= ptr.off() <= end.off() <= ptr.mem().len() && (end.off() - ptr.off()) % w == 0 && ptr.mem().len() <= isize::MAX }
pub open spec fn span_n(ptr: Ptr, end: Ptr, w: int) -> nat { ((end.off() - ptr.off()) / w) as nat }
// the cell i of the ones still to come
pub open spec fn span_at(ptr: Ptr, w: int, i: int) -> Seq<u8> { bytes_at(ptr.mem(), ptr.off() + i * w, w) }
pub proof fn lemma_span(ptr: Ptr, end: Ptr, w: int) requires span_ok(ptr, end, w), w == 4 || w == 8 || w == 16
    ensures end.off() - ptr.off() == span_n(ptr, end, w) * w, forall|i: int| 0 <= i < span_n(ptr, end, w) ==> 0 <= #[trigger] (ptr.off() + i * w) && ptr.off() + i * w + w <= end.off()
{
    let d = end.off() - ptr.off(); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(d, w); let n = d / w;
    assert(n * w == w * n) by (nonlinear_arith);
    assert(n >= 0) by (nonlinear_arith) requires n * w == d, d >= 0, w > 0;
    assert forall|i: int| 0 <= i < span_n(ptr, end, w) implies 0 <= #[trigger] (ptr.off() + i * w) && ptr.off() + i * w + w <= end.off() by { assert(0 <= i * w && i * w + w <= n * w) by (nonlinear_arith) requires 0 <= i, i + 1 <= n, w > 0; }
}
pub proof fn lemma_step(ptr: Ptr, p2: Ptr, end: Ptr, w: int, k: int) requires span_ok(ptr, end, w), w == 4 || w == 8 || w == 16, 0 <= k <= span_n(ptr, end, w), p2.mem() == ptr.mem(), p2.off() == ptr.off() + k * w
    ensures span_ok(p2, end, w), span_n(p2, end, w) == span_n(ptr, end, w) - k, forall|i: int| #[trigger] span_at(p2, w, i) == span_at(ptr, w, i + k)
{
    lemma_span(ptr, end, w); let n = span_n(ptr, end, w);
    assert(end.off() - p2.off() == (n - k) * w) by (nonlinear_arith) requires end.off() - ptr.off() == n * w, p2.off() == ptr.off() + k * w;
    assert(k * w >= 0) by (nonlinear_arith) requires k >= 0, w > 0;
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(n - k, w); vstd::arithmetic::div_mod::lemma_div_multiples_vanish(n - k, w);
    assert((n - k) * w >= 0) by (nonlinear_arith) requires n >= k, w > 0;
    assert forall|i: int| #[trigger] span_at(p2, w, i) == span_at(ptr, w, i + k) by { assert(p2.off() + i * w == ptr.off() + (i + k) * w) by (nonlinear_arith) requires p2.off() == ptr.off() + k * w; }
}
"""

PTRS = [(r"\bunsafe \{", "{", "unsafe block: the operations in it carry their safety conditions as preconditions"),
        (r"slice::from_raw_parts\(self\.ptr, (\d+)\)", r"self.ptr.slice(\1)", "from_raw_parts through a checked stand-in (in bounds is proved)"),
        (r"self\.ptr\.offset\(", "self.ptr.add(", "offset of a constant as add"),
        (r"m\.copy_from_slice\(v\)", "copy_from(&mut m, v)", "copy_from_slice through its contract (lengths must agree)"),
        (r"m\.reverse\(\)", "reverse_from(&mut m, 0)", "slice reversal through a stub"),
        (r"m\[\.\.8\]\.reverse\(\)", "reverse_part(&mut m, 0, 8)", "slice reversal through a stub"),
        (r"m\[8\.\.\]\.reverse\(\)", "reverse_from(&mut m, 8)", "slice reversal through a stub"),
        (r"(?:Ipv4Addr::from|Ipv6Addr::from|uuid::Uuid::from_bytes)\(m\)", "octets_of(m)", "constructor of a dependency type by its octets"),
        (r"self\.end as usize - self\.ptr as usize", "self.end.minus(self.ptr)", "pointer difference"),
        (r"self\.end as usize - start as usize", "self.end.minus(start)", "pointer difference"),
        (r"self\.ptr == self\.end", "self.ptr.same(self.end)", "pointer equality"),
        (r"self\.ptr\.add\(n \* (\d+)\)", r"self.ptr.add_items(n, \1)", "pointer arithmetic in items"),
        (r"mem::size_of::<(i32|i64)>\(\)", r"<\1 as Cell>::csize()", "size_of")]
UNSAFE = (r"\bunsafe fn", "fn", "unsafe fn: its safety condition is the precondition")


def spans(u):
    u.text(FIXED)
    ST = [K.PUBF, (r"\*const u8", "Ptr", "raw pointer as the checked stand-in"), (r"<'a>", "", "lifetime dropped"), (r"(?:pub )?_marker: marker::PhantomData<&'a \(\)>,", "", "marker field dropped")]
    ITEMS = {"DecimalIterator": ("Decimal", "self.w()", "Decimal { underlying: le_int(span_at(self.ptr, self.w(), i)) as i64, nobits: self.nobits, precision: self.precision, scale: self.scale }"),
             "Ipv4Iterator": ("Ipv4Addr", "4", "octets(rev(span_at(self.ptr, 4, i)))"),
             "Ipv6Iterator": ("Ipv6Addr", "16", "octets(span_at(self.ptr, 16, i))"),
             "UuidIterator": ("Uuid", "16", "octets(uuid_order(span_at(self.ptr, 16, i)))")}
    for name, (item, w, at) in ITEMS.items():
        u.item(P, f"struct {name}", rewrites=ST)
        fixed = "" if w != "self.w()" else " && (forall|i: int| 0 <= i < span_n(self.ptr, self.end, self.w()) ==> i64::MIN <= le_int(#[trigger] span_at(self.ptr, self.w(), i)) <= i64::MAX)"
        u.text(f"impl {name} {{")
        if w == "self.w()":
            u.text("pub open spec fn w(&self) -> int { if self.nobits is N32 { 4 } else { 8 } }")
            wd = w
        wk = w
        same = "final(self).end == old(self).end" + (", final(self).nobits == old(self).nobits, final(self).precision == old(self).precision, final(self).scale == old(self).scale" if w == "self.w()" else "")
        ow = wk.replace("self.", "old(self).")
        moved = lambda k: f"final(self).ptr.mem() == old(self).ptr.mem(), final(self).ptr.off() == old(self).ptr.off() + {k} * {ow}, {same}"
        u.text(f"pub open spec fn ok(&self) -> bool {{ span_ok(self.ptr, self.end, {wk}){fixed} }}\n"
               f"pub open spec fn items(&self) -> Seq<{item}> {{ Seq::new(span_n(self.ptr, self.end, {wk}), |i: int| self.item(i)) }}\n"
               f"pub open spec fn item(&self, i: int) -> {item} {{ {at} }}\n"
               f"pub proof fn lemma_skip(&self, o: Self, k: int) requires o.ok(), 0 <= k <= span_n(o.ptr, o.end, {wk.replace('self.', 'o.')}), self.ptr.mem() == o.ptr.mem(), self.ptr.off() == o.ptr.off() + k * {wk.replace('self.', 'o.')}, self.end == o.end{', self.nobits == o.nobits, self.precision == o.precision, self.scale == o.scale' if w == 'self.w()' else ''}\n"
               f"  ensures self.ok(), self.items() == o.items().skip(k) {{ lemma_step(o.ptr, self.ptr, o.end, {wk}, k); assert forall|i: int| #![auto] 0 <= i < self.items().len() implies self.items()[i] == o.items().skip(k)[i] by {{ assert(span_at(self.ptr, {wk}, i) == span_at(o.ptr, {wk}, i + k)); }} assert(self.items() =~= o.items().skip(k));"
               + (f" assert forall|i: int| 0 <= i < span_n(self.ptr, self.end, {wk}) implies i64::MIN <= le_int(#[trigger] span_at(self.ptr, {wk}, i)) <= i64::MAX by {{ assert(span_at(self.ptr, {wk}, i) == span_at(o.ptr, {wk}, i + k)); }}" if w == "self.w()" else "") + " }")
        I = (P, rf"impl ^impl<'a> {name}<'a>$")
        start = f"proof {{ lemma_span(self.ptr, self.end, {wk}); assert(self.ptr.off() + 0 * {wk} == self.ptr.off()); }}"
        if w == "self.w()":
            u.fn(*I, "fn next_unchecked_", vis="pub", sig=[UNSAFE, (r"where\s*T: Copy \+ Sized,\s*i64: From<T>,", "where T: Cell,", "bounds: a decimal cell is an i32 or an i64")],
                 rewrites=[(r"\*\(self\.ptr as \*const T\)", "T::load(self.ptr)", "typed read through a checked stand-in"), (r"\(self\.ptr as \*const T\)\.offset\(1\) as \*const u8", "self.ptr.add(T::csize())", "typed pointer increment"), (r"current_value\.into\(\)", "current_value.to64()", "lossless widening")],
                 keep_where=True, hints=[("start", "", start)],
                 spec=f"requires old(self).ok(), T::cw() == old(self).w(), old(self).items().len() > 0 ensures r == old(self).item(0), {moved('1')}")
            u.fn(*I, "fn next_unchecked", vis="pub", sig=[UNSAFE], rewrites=PTRS, spec=f"requires old(self).ok(), old(self).items().len() > 0 ensures r == old(self).item(0), {moved('1')}")
            pr = [(r"\(self\.ptr as \*const i32\)\.add\(n\) as \*const u8", "self.ptr.add_items(n, 4)", "typed pointer arithmetic in items"), (r"\(self\.ptr as \*const i64\)\.add\(n\) as \*const u8", "self.ptr.add_items(n, 8)", "typed pointer arithmetic in items")]
        else:
            pr = []
            u.fn(*I, "fn next_unchecked", vis="pub", sig=[UNSAFE, (r"-> uuid::Uuid", "-> Uuid", "path")], rewrites=PTRS, hints=[("start", "", start), ("before", r"octets_of\(m\)", "proof { assert(m@ =~= %s); }" % {"Ipv4Iterator": "rev(span_at(old(self).ptr, 4, 0))", "Ipv6Iterator": "span_at(old(self).ptr, 16, 0)", "UuidIterator": "uuid_order(span_at(old(self).ptr, 16, 0))"}[name])],
                 spec=f"requires old(self).ok(), old(self).items().len() > 0 ensures r == old(self).item(0), {moved('1')}")
        u.fn(*I, "fn post_inc_start", vis="pub", rewrites=PTRS + pr, hints=[("start", "", f"proof {{ lemma_span(self.ptr, self.end, {wk}); let k_ = n as int; let w_: int = {wk}; assert(0 <= k_ * w_ <= self.items().len() * w_) by (nonlinear_arith) requires 0 <= k_ <= self.items().len(), w_ > 0; }}")],
             spec=f"requires old(self).ok(), n <= old(self).items().len() ensures {moved('n as int')}")
        u.fn(P, rf"impl ^impl<'a> ExactSizeIterator for {name}<'a>$", "fn len", vis="pub", rewrites=PTRS, spec="requires self.ok() ensures r == self.items().len()")
        u.text("}\nimpl It for %s { type Item = %s; open spec fn wf(&self) -> bool { self.ok() } open spec fn rest(&self) -> Seq<%s> { self.items() }" % (name, item, item))
        R = (P, f"macro_expand iterator name={name},type={item}", rf"impl ^impl<'a> Iterator for {name}<'a>$")
        NX = [("start", "", f"proof {{ lemma_span(self.ptr, self.end, {wk}); }}"), ("before", r"if self\.ptr", "let r_ = "), ("end", "", "; proof { if r_ is Some { self.lemma_skip(*old(self), 1); } else { assert(self.items() =~= Seq::empty()); } } r_")]
        u.fn(*R, "fn next", rewrites=PTRS, hints=NX)
        u.text("}\nimpl %s {" % name)
        u.fn(*R, "fn size_hint", vis="pub", spec="requires self.ok() ensures r.0 == self.items().len(), r.1 == Some(r.0)")
        u.fn(*R, "fn count", vis="pub", spec="requires self.ok() ensures r == self.items().len()")
        u.fn(*R, "fn nth", vis="pub", sig=[(r"Self::Item", item, "associated type written out")], spec="requires old(self).ok() ensures final(self).ok(), taken(old(self).items(), n as int, r, final(self).items())",
             hints=[("after", r"self\.ptr = self\.end;", f"proof {{ assert(0int * {wk} == 0) by (nonlinear_arith); assert(0int % {wk} == 0 && 0int / {wk} == 0) by (nonlinear_arith) requires {wk} == 4 || {wk} == 8 || {wk} == 16; assert(self.items() =~= Seq::empty()); }}"),
                    ("after", r"self\.post_inc_start\(n\);", "proof { self.lemma_skip(*old(self), n as int); }"),
                    ("before", r"self\.next\(\)", "let r_ = "), ("end", "", f"; proof {{ assert(self.items() =~= old(self).items().skip(n + 1)); }} r_")])
        u.text("}")



LC = [(r"self\s*\.lc_index\s*\.map\(\|(\w+)\| unsafe \{ \(\*(\w+)\)\.get_by_index\(([\w.]+)\) \}\)\s*\.unwrap_or\(([\w.]+)\)", r"match self.lc_index { Some(\1) => \2.get_by_index(\3), None => \4 }", "Option::map(closure).unwrap_or as a match"),
      (r"\*self\.ptr\.add\((\w+)\)", r"self.ptr.get(\1)", "typed read through a checked stand-in"), (r"\*ptr\.add\((\w+)\)", r"ptr.get(\1)", "typed read through a checked stand-in"),
      (r"\bUtc\b", "utc()", "unit value of a dependency type"), DT.I64F, (r"\bunsafe \{", "{", "unsafe block: the operations in it carry their safety conditions as preconditions")]
DTZ = (r"DateTime<Tz>", "AppDateTime", "dependency type")


def indexed(u):
    ST = [K.PUBF, (r"\*const LowCardinalityIndex", "IndexPtr", "raw pointer as the checked stand-in"), (r"\*const (u16|u32|i64)", r"Cells<\1>", "raw pointer as the checked stand-in"), (r"<'a>", "", "lifetime dropped"), (r"(?:pub )?_marker: marker::PhantomData<&'a \(\)>,", "", "marker field dropped")]
    u.item(P, "enum DateTimeInnerIterator", rewrites=ST[1:] + [(r"^\s*enum ", "pub enum ", "visibility")])
    u.fn(D64, "fn to_native_datetime_opt", vis="pub", hints=[("start", "", "proof { lemma_tick(value, precision); }")],
         spec="""ensures r is Some <==> in_range64(value, precision),
             precision <= 9 && r is Some ==> r->Some_0.secs == tick_secs(value as int, precision as nat) && r->Some_0.nanos == tick_nanos(value as int, precision as nat)""")
    u.text("""
impl DateTimeInnerIterator {
    pub open spec fn len(&self) -> nat { match self { DateTimeInnerIterator::DateTime32(p) => p.cells().len(), DateTimeInnerIterator::DateTime64(p, _) => p.cells().len() } }
    // the instant of a cell is one that chrono can represent
    pub open spec fn fits(&self, i: int) -> bool { match self { DateTimeInnerIterator::DateTime32(p) => true, DateTimeInnerIterator::DateTime64(p, precision) => *precision <= 9 && chrono_ok(tick_secs(p.cells()[i] as int, *precision as nat)) } }
    pub open spec fn secs(&self, i: int) -> int { match self { DateTimeInnerIterator::DateTime32(p) => p.cells()[i] as int, DateTimeInnerIterator::DateTime64(p, precision) => tick_secs(p.cells()[i] as int, *precision as nat) } }
    pub open spec fn nanos(&self, i: int) -> int { match self { DateTimeInnerIterator::DateTime32(p) => 0, DateTimeInnerIterator::DateTime64(p, precision) => tick_nanos(p.cells()[i] as int, *precision as nat) } }
}
// a LowCardinality column's row is a number of a dictionary cell
pub open spec fn pos(lc: Option<IndexPtr>, i: int) -> int { if lc is Some { lc->Some_0.keys()[i] as int } else { i } }
pub open spec fn pos_ok(lc: Option<IndexPtr>, i: int, cells: nat) -> bool { (lc is Some ==> lc->Some_0.live() && i < lc->Some_0.keys().len()) && pos(lc, i) < cells }
""")
    ITEMS = {"DateIterator": ("NaiveDate", "NaiveDate { ce: (719_163 + self.ptr.cells()[pos(self.lc_index, i)]) as i32 }", "pos_ok(self.lc_index, i, self.ptr.cells().len())", "self.ptr == o.ptr"),
             "DateTimeIterator": ("AppDateTime", "AppDateTime { secs: self.inner.secs(pos(self.lc_index, i)) as i64, nanos: self.inner.nanos(pos(self.lc_index, i)) as u32, tz: self.tz }", "pos_ok(self.lc_index, i, self.inner.len()) && self.inner.fits(pos(self.lc_index, i))", "self.inner == o.inner && self.tz == o.tz"),
             "NativeDateTimeIterator": ("NaiveDateTime", "NaiveDateTime { secs: self.inner.secs(pos(self.lc_index, i)) as i64, nanos: self.inner.nanos(pos(self.lc_index, i)) as u32 }", "pos_ok(self.lc_index, i, self.inner.len()) && self.inner.fits(pos(self.lc_index, i))", "self.inner == o.inner")}
    for name, (item, at, fine, same) in ITEMS.items():
        u.item(P, f"struct {name}", rewrites=ST)
        u.text(f"""impl {name} {{
    pub open spec fn fine(&self, i: int) -> bool {{ {fine} }}
    pub open spec fn ok(&self) -> bool {{ self.index <= self.len && forall|i: int| self.index <= i < self.len ==> #[trigger] self.fine(i) }}
    pub open spec fn item(&self, i: int) -> {item} {{ {at} }}
    pub open spec fn items(&self) -> Seq<{item}> {{ Seq::new((self.len - self.index) as nat, |i: int| self.item(self.index + i)) }}
    pub open spec fn moved(&self, o: Self, k: int) -> bool {{ self.index == o.index + k && self.len == o.len && self.lc_index == o.lc_index && {same} }}
    pub proof fn lemma_skip(&self, o: Self, k: int) requires o.ok(), 0 <= k <= o.len - o.index, self.moved(o, k) ensures self.ok(), self.items() == o.items().skip(k)
    {{ assert forall|i: int| self.index <= i < self.len implies #[trigger] self.fine(i) by {{ assert(o.fine(i)); }} assert(self.items() =~= o.items().skip(k)); }}""")
        I = (P, rf"impl ^impl<'a> {name}<'a>$")
        br = "broadcast use axiom_chrono, axiom_chrono_days; " + "proof { assert(self.fine(%s as int)); }"
        if name != "DateIterator":
            lt = "proof { match self.inner { DateTimeInnerIterator::DateTime64(p_, precision_) => { let v_ = p_.cells()[pos(self.lc_index, index as int)]; lemma_p10(precision_ as nat); lemma_tick(v_, precision_); theorem_exact(v_ as int, precision_ as nat); lemma_q(v_ as int, p10(precision_ as nat)); }, _ => {} } }"
            u.fn(*I, "fn get_by_index", vis="pub", sig=[UNSAFE, DTZ], rewrites=LC, hints=[("start", "", br % "index" + " " + lt)],
                 spec="requires self.ok(), self.index <= index < self.len ensures r == self.item(index as int)")
            h = []
        else:
            h = [("start", "", br % "self.index")]
        u.fn(*I, "fn next_unchecked", vis="pub", sig=[UNSAFE, DTZ], rewrites=LC, hints=h, spec="requires old(self).ok(), old(self).index < old(self).len ensures r == old(self).item(old(self).index as int), final(self).moved(*old(self), 1)")
        u.fn(*I, "fn post_inc_start", vis="pub", spec="requires old(self).ok(), n <= old(self).len - old(self).index ensures final(self).moved(*old(self), n as int)")
        u.fn(P, rf"impl ^impl ExactSizeIterator for {name}<'_>$", "fn len", vis="pub", spec="requires self.ok() ensures r == self.items().len()")
        R = (P, rf"impl ^impl<'a> Iterator for {name}<'a>$")
        u.text("}\nimpl It for %s { type Item = %s; open spec fn wf(&self) -> bool { self.ok() } open spec fn rest(&self) -> Seq<%s> { self.items() }" % (name, item, item))
        u.fn(*R, "fn next", rewrites=[(r"\bunsafe \{", "{", "unsafe block")], hints=[("before", r"if self\.", "let r_ = "), ("end", "", "; proof { if r_ is Some { self.lemma_skip(*old(self), 1); } else { assert(self.items() =~= Seq::empty()); } } r_")])
        u.text("}\nimpl %s {" % name)
        whole(u, R, item, "self.index = self.len;")
        u.text("}")


def whole(u, R, item, drained, empty=""):
    """size_hint, count and nth"""
    u.fn(*R, "fn size_hint", vis="pub", spec="requires self.ok() ensures r.0 == self.items().len(), r.1 == Some(r.0)")
    u.fn(*R, "fn count", vis="pub", spec="requires self.ok() ensures r == self.items().len()")
    if item is None:
        return
    u.fn(*R, "fn nth", vis="pub", sig=[(r"Self::Item", item, "associated type written out")], spec="requires old(self).ok() ensures final(self).ok(), taken(old(self).items(), n as int, r, final(self).items())",
         hints=[("after", re.escape(drained), f"proof {{ {empty} assert(self.items() =~= Seq::empty()); }}"),
                ("after", r"self\.(?:post_inc_start\(n\)|index \+= n);", "proof { self.lemma_skip(*old(self), n as int); }"),
                ("before", r"self\.next\(\)", "let r_ = "), ("end", "", f"; proof {{ assert(self.items() =~= old(self).items().skip(n + 1)); }} r_")])


def strings(u):
    LT = (r"<'a>|<'_>", "", "lifetime dropped")
    u.item(P, "enum StringInnerIterator", rewrites=[(r"^\s*enum ", "pub enum ", "visibility"), LT, (r"&'a StringPool", "&'static StringPool", "lifetime"), (r"\*const u8", "Ptr", "raw pointer as the checked stand-in"), (r"\*const LowCardinalityIndex", "IndexPtr", "raw pointer as the checked stand-in"), (r"\*const dyn LowCardinalityAccessor", "DictPtr", "raw pointer as the checked stand-in")])
    u.item(P, "struct StringIterator", rewrites=[K.PUBF, LT])
    u.text("""
impl StringIterator {
    pub open spec fn fine(&self, i: int) -> bool { match self.inner {
        StringInnerIterator::String(p) => i < p.strs().len(),
        StringInnerIterator::FixedString(p, n) => p.off() == 0 && p.mem().len() <= isize::MAX && (i + 1) * n <= p.mem().len(),
        StringInnerIterator::LowCardinality(ix, d) => ix.live() && i < ix.keys().len() && ix.keys()[i] < d.strs().len() } }
    pub open spec fn ok(&self) -> bool { self.index <= self.size && forall|i: int| self.index <= i < self.size ==> #[trigger] self.fine(i) }
    pub open spec fn item(&self, i: int) -> Bytes { match self.inner {
        StringInnerIterator::String(p) => p.strs()[i],
        StringInnerIterator::FixedString(p, n) => bytes_of(bytes_at(p.mem(), i * n, n as int)),
        StringInnerIterator::LowCardinality(ix, d) => d.strs()[ix.keys()[i] as int] } }
    pub open spec fn items(&self) -> Seq<Bytes> { Seq::new((self.size - self.index) as nat, |i: int| self.item(self.index + i)) }
    pub proof fn lemma_skip(&self, o: Self, k: int) requires o.ok(), 0 <= k <= o.size - o.index, self.index == o.index + k, self.size == o.size, self.inner == o.inner ensures self.ok(), self.items() == o.items().skip(k)
    { assert forall|i: int| self.index <= i < self.size implies #[trigger] self.fine(i) by { assert(o.fine(i)); } assert(self.items() =~= o.items().skip(k)); }
""")
    u.fn(P, r"impl ^impl ExactSizeIterator for StringIterator<'_>$", "fn len", vis="pub", spec="requires self.ok() ensures r == self.items().len()")
    R = (P, r"impl ^impl<'a> Iterator for StringIterator<'a>$")
    u.text("}\nimpl It for StringIterator { type Item = Bytes; open spec fn wf(&self) -> bool { self.ok() } open spec fn rest(&self) -> Seq<Bytes> { self.items() }")
    end = "proof { self.lemma_skip(*old(self), 1); }"
    u.fn(*R, "fn next", rewrites=[(r"\bunsafe \{", "{", "unsafe block"), (r"slice::from_raw_parts\(ptr, str_len\)", "ptr.text(str_len)", "from_raw_parts through a checked stand-in (in bounds is proved)"),
                                  (r"\(\*index\)", "index", "pointer read through the stand-in"), (r"\(\*accessor\)", "accessor", "pointer read through the stand-in")],
         hints=[("start", "", "proof { assert(self.items().len() == self.size - self.index); if self.index < self.size { assert(self.fine(self.index as int)); if let StringInnerIterator::FixedString(p_, n_) = self.inner { let i_ = self.index as int; let m_: int = n_ as int; assert(i_ * m_ >= 0 && (i_ + 1) * m_ == i_ * m_ + m_) by (nonlinear_arith) requires i_ >= 0, m_ >= 0; } } else { assert(self.items() =~= Seq::empty()); } }"),
                ("before", r"match self\.inner", "let r_ = "), ("end", "", "; proof { self.lemma_skip(*old(self), 1); } r_")])
    u.text("}\nimpl StringIterator {")
    whole(u, R, "Bytes", "self.index = self.size;")
    u.text("}")


def nested(u):
    LT = (r"<'a, ", "<", "lifetime dropped")
    MK = (r"(?:pub )?_marker: marker::PhantomData<&'a \(\)>,", "", "marker field dropped")
    PT = (r"\*const u8", "Ptr", "raw pointer as the checked stand-in")
    OF = (r"&'a \[u64\]", "&'static [u64]", "lifetime")
    # NULL map over an inner iterator
    u.item(P, "struct NullableIterator", rewrites=[K.PUBF, LT, PT, MK])
    u.text("""
impl<I: It> NullableIterator<I> {
    pub open spec fn ok(&self) -> bool { span_ok(self.ptr, self.end, 1) && self.inner.wf() && self.inner.rest().len() == self.end.off() - self.ptr.off() }
    pub open spec fn item(&self, i: int) -> Option<I::Item> { if self.ptr.mem()[self.ptr.off() + i] != 0 { None } else { Some(self.inner.rest()[i]) } }
    pub open spec fn items(&self) -> Seq<Option<I::Item>> { Seq::new((self.end.off() - self.ptr.off()) as nat, |i: int| self.item(i)) }
""")
    u.fn(P, r"impl ^impl<'a, I> ExactSizeIterator for NullableIterator<'a, I> where", "fn len", vis="pub", rewrites=PTRS, spec="requires self.ok() ensures r == self.items().len()")
    R = (P, r"impl ^impl<'a, I> Iterator for NullableIterator<'a, I> where")
    u.text("}\nimpl<I: It> It for NullableIterator<I> { type Item = Option<I::Item>; open spec fn wf(&self) -> bool { self.ok() } open spec fn rest(&self) -> Seq<Option<I::Item>> { self.items() }")
    u.fn(*R, "fn next", rewrites=PTRS + [(r"\*self\.ptr\b", "self.ptr.read()", "read through a checked stand-in"), (r"self\.inner\.next\(\)\?", "(match self.inner.next() { Some(x_) => x_, None => return None })", "? on an Option as a match")],
         hints=[("start", "", "proof { if self.ptr.off() == self.end.off() { assert(self.items() =~= Seq::empty()); } }"),
                ("after", r"self\.ptr = self\.ptr\.(?:add|offset)\(1\);", "proof { assert(self.items() =~= old(self).items().skip(1)); }")])
    u.text("}\nimpl<I: It> NullableIterator<I> {")
    whole(u, R, None, "")
    u.text("}")
    # arrays
    u.text("""
pub open spec fn start_of(o: Seq<u64>, i: int) -> int { if i > 0 { o[i - 1] as int } else { 0 } }
pub open spec fn offs_ok(o: Seq<u64>, index: int, size: int) -> bool { 0 <= index <= size && o.len() == size && forall|i: int, j: int| 0 <= i <= j < size ==> o[i] <= o[j] }
""")
    for name, item, decl, wf, at, left in (("ArrayIterator", "VecOf<I::Item>", "I: It", "self.inner.wf() && self.inner.rest().len() == self.left()", "VecOf { items: Ghost(self.inner.rest().subrange(self.from(i), self.from(i + 1))) }", "I"),
                                     ("MapIterator", "MapOf<K::Item, V::Item>", "K: It, V: It", "self.inner.0.wf() && self.inner.1.wf() && self.inner.0.rest().len() == self.left() && self.inner.1.rest().len() == self.left()", "MapOf { pairs: Ghost(zip_of(self.inner.0.rest(), self.inner.1.rest()).subrange(self.from(i), self.from(i + 1))) }", "K, V")):
        if name == "MapIterator":
            u.text("pub open spec fn zip_of<A, B>(a: Seq<A>, b: Seq<B>) -> Seq<(A, B)> { Seq::new(a.len(), |i: int| (a[i], b[i])) }")
        u.item(P, f"struct {name}", rewrites=[K.PUBF, LT, OF])
        u.text(f"""
impl<{decl}> {name}<{left}> {{
    // elements still to come, and where item i's begin among them
    pub open spec fn left(&self) -> int {{ start_of(self.offsets@, self.size as int) - start_of(self.offsets@, self.index as int) }}
    pub open spec fn from(&self, i: int) -> int {{ start_of(self.offsets@, self.index + i) - start_of(self.offsets@, self.index as int) }}
    pub open spec fn ok(&self) -> bool {{ offs_ok(self.offsets@, self.index as int, self.size as int) && {wf} }}
    pub open spec fn item(&self, i: int) -> {item} {{ {at} }}
    pub open spec fn items(&self) -> Seq<{item}> {{ Seq::new((self.size - self.index) as nat, |i: int| self.item(i)) }}
""")
        x = r"impl ^impl<'a, I: Iterator> %s for ArrayIterator<'a, I>$" if name == "ArrayIterator" else r"impl ^impl<'a, K: Iterator, V: Iterator> %s for MapIterator<'a, K, V> where"
        u.fn(P, x % "ExactSizeIterator", "fn len", vis="pub", spec="requires self.ok() ensures r == self.items().len()")
        R = (P, x % "Iterator")
        u.text("}\nimpl<%s> It for %s<%s> { type Item = %s; open spec fn wf(&self) -> bool { self.ok() } open spec fn rest(&self) -> Seq<%s> { self.items() }" % (decl, name, left, item, item))
        if name == "ArrayIterator":
            inv = "self.inner.wf(), self.inner.rest() == old(self).inner.rest().skip(k_ as int), v.items@ == old(self).inner.rest().subrange(0, k_ as int)"
            fin = ""
        else:
            inv = "self.inner.0.wf(), self.inner.1.wf(), self.inner.0.rest() == old(self).inner.0.rest().skip(k_ as int), self.inner.1.rest() == old(self).inner.1.rest().skip(k_ as int), v.pairs@ == zip_of(old(self).inner.0.rest(), old(self).inner.1.rest()).subrange(0, k_ as int)"
        o = "old(self)."
        fld = "items" if name == "ArrayIterator" else "pairs"
        src = "old(self).inner.rest()" if name == "ArrayIterator" else "zip_of(old(self).inner.0.rest(), old(self).inner.1.rest())"
        u.fn(*R, "fn next", rewrites=[(r"for _ in 0\.\.size", "for k_ in 0..size", "loop counter named"), (r"\bVec::with_capacity", "VecOf::with_capacity", "Vec stand-in"), (r"HashMap::with_capacity", "MapOf::with_capacity", "HashMap stand-in")],
             loops=[dict(head=r"for k_ in 0\.\.size", spec=f"invariant old(self).ok(), size == old(self).from(1), self.index == old(self).index, self.size == old(self).size, self.offsets == old(self).offsets, size <= old(self).left(), {inv}",
                         start="let ghost s_ = *self; let ghost v0_ = v;",
                         end=f"proof {{ assert(v.{fld}@ =~= {src}.subrange(0, k_ + 1)); " + ("assert(self.inner.rest() =~= old(self).inner.rest().skip(k_ + 1));" if name == "ArrayIterator" else "assert(self.inner.0.rest() =~= old(self).inner.0.rest().skip(k_ + 1)); assert(self.inner.1.rest() =~= old(self).inner.1.rest().skip(k_ + 1));") + " }",
                         before=("proof { assert(self.inner.rest().subrange(0, 0) =~= Seq::empty()); assert(self.inner.rest().skip(0) =~= self.inner.rest()); }" if name == "ArrayIterator" else "proof { assert(zip_of(self.inner.0.rest(), self.inner.1.rest()).subrange(0, 0) =~= Seq::empty()); assert(self.inner.0.rest().skip(0) =~= self.inner.0.rest()); assert(self.inner.1.rest().skip(0) =~= self.inner.1.rest()); }"))],
             hints=[("start", "", "proof { if self.index == self.size { assert(self.items() =~= Seq::empty()); } else { let i_ = self.index as int; assert(start_of(self.offsets@, i_) <= start_of(self.offsets@, i_ + 1) <= start_of(self.offsets@, self.size as int)); } }"),
                    ("after", r"self\.index \+= 1;", "proof { assert forall|i: int| 0 <= i < self.items().len() implies #[trigger] self.items()[i] == old(self).items()[i + 1] by { let b_ = start_of(self.offsets@, self.index as int); assert(self.from(i) == old(self).from(i + 1) - size); assert(b_ <= start_of(self.offsets@, self.index + i) <= start_of(self.offsets@, self.index + i + 1) <= start_of(self.offsets@, self.size as int)); "
                     + ("assert(self.inner.rest().subrange(self.from(i), self.from(i + 1)) =~= old(self).inner.rest().subrange(old(self).from(i + 1), old(self).from(i + 2)));" if name == "ArrayIterator" else
                        "assert(zip_of(self.inner.0.rest(), self.inner.1.rest()).subrange(self.from(i), self.from(i + 1)) =~= zip_of(old(self).inner.0.rest(), old(self).inner.1.rest()).subrange(old(self).from(i + 1), old(self).from(i + 2)));")
                     + " } assert(self.items() =~= old(self).items().skip(1)); assert(v == old(self).items()[0]); }")])
        u.text(f"}}\nimpl<{decl}> {name}<{left}> {{")
        whole(u, R, None, "")
        u.text("}")


def build():
    u = K.prelude("iters", ints=("u8", "u16", "u32", "i64", "u64"))
    K.lists(u)
    DT.conversions(u)
    u.text(SPEC)
    spans(u)
    indexed(u)
    strings(u)
    nested(u)
    u.text(IN.SPEC)
    IN.columns(u)
    IT.build(u)
    u.text("} fn main() {}")
    return u
