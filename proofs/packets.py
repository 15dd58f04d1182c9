"""Server packets (parser.rs) and the transport (transport.rs, read_to_end.rs): what a reply decodes to
depends on its bytes only; messages leave complete and in order."""
from rsx import Unit
from . import common as C
from . import cols as K
from . import wire as W

P = "src/binary/parser.rs"
T = "src/io/transport.rs"
RE = "src/io/read_to_end.rs"
TY = "src/types/mod.rs"
PR = "src/binary/protocol.rs"


def chain(steps, final, s="s"):
    """nested decoding steps: (binder, parser expression with {} for the input)"""
    out, end, cur = "", "", s
    for i, (b, e) in enumerate(steps):
        nxt = f"s{i + 1}"
        out += f"match {e.format(cur)} {{ P::More => P::More, P::Bad => P::Bad, P::Val({b}, {nxt}) => "
        end += " }"
        cur = nxt
    return out + final.format(cur) + end


SPEC = """
// ---- dependency types ----
#[derive(Clone, Copy)] pub struct Tz { pub id: u16 }
pub const TZ_UTC: Tz = Tz { id: 0 };
pub uninterp spec fn tz_of(b: Seq<u8>) -> Option<Tz>;       // chrono-tz: the zone a name denotes
#[verifier::external_body] pub fn tz_parse(s: String) -> (r: core::result::Result<Tz, io::Error>) ensures match r { Ok(t) => tz_of(encode_utf8(s@)) == Some(t), Err(_) => tz_of(encode_utf8(s@)) is None } { unimplemented!() }
// ---- what is at the head of `s`: a value and what follows it; More: cut short; Bad: malformed ----
pub enum P<V> { Val(V, Seq<u8>), More, Bad }
pub open spec fn p_var(s: Seq<u8>) -> P<u64> { match dec(s) { Dec::Val(v, n) => P::Val(v, s.skip(n as int)), Dec::Overflow => P::Bad, Dec::Incomplete => P::More } }
pub open spec fn p_str(s: Seq<u8>) -> P<Seq<u8>> { match dec_str(s) { StrDec::Val(b, n) => if valid_utf8(b) { P::Val(b, s.skip(n as int)) } else { P::Bad }, StrDec::Overflow => P::Bad, StrDec::Incomplete => P::More } }
pub open spec fn p_raw(s: Seq<u8>) -> P<Seq<u8>> { match dec_str(s) { StrDec::Val(b, n) => P::Val(b, s.skip(n as int)), StrDec::Overflow => P::Bad, StrDec::Incomplete => P::More } }
pub open spec fn p_bool(s: Seq<u8>) -> P<bool> { if s.len() < 1 { P::More } else { P::Val(s[0] != 0, s.skip(1)) } }
pub open spec fn p_u32(s: Seq<u8>) -> P<u32> { if s.len() < 4 { P::More } else { P::Val(<u32 as Unmarshal<u32>>::of_bytes(s.take(4)), s.skip(4)) } }
pub open spec fn p_none<V>(v: V, s: Seq<u8>) -> P<V> { P::Val(v, s) }
pub open spec fn p_tz(s: Seq<u8>) -> P<Tz> { match p_str(s) { P::Val(b, r) => match tz_of(b) { Some(t) => P::Val(t, r), None => P::Bad }, P::More => P::More, P::Bad => P::Bad } }
// a block: what Block::load makes of the bytes (its contents are the subject of P05 and P06)
pub struct BlockV;
#[verifier::external_body] pub struct Block { _p: () }
impl Block {
    pub uninterp spec fn v(&self) -> BlockV;
    // Block::load: assumed to be a function of the bytes, and to report missing bytes as such
    #[verifier::external_body] pub fn load<R: ReadEx>(reader: &mut R, tz: Tz, compress: bool) -> (r: Result<Block>)
        ensures final(reader).steady() == old(reader).steady(), final(reader).anchor() == old(reader).anchor(),
            old(reader).steady() ==> match p_block(old(reader).rest(), tz, compress) {
                P::Val(b, rest) => r is Ok && r->Ok_0.v() == b && final(reader).rest() == rest,
                P::More => r is Err && is_would_block(r->Err_0), P::Bad => r is Err && !is_would_block(r->Err_0) } { unimplemented!() }
}
pub uninterp spec fn p_block(s: Seq<u8>, tz: Tz, compress: bool) -> P<BlockV>;
// decoding consumes what it decodes, and later bytes do not change it (the parts below prove it of everything but a block)
pub axiom fn axiom_block(s: Seq<u8>, d: Seq<u8>, tz: Tz, compress: bool)
    ensures p_block(s, tz, compress) matches P::Val(v, rest) ==> (p_block(s + d, tz, compress) == P::Val(v, rest + d) && rest.len() <= s.len()),
        p_block(s, tz, compress) is Bad ==> p_block(s + d, tz, compress) is Bad;
"""

VIEWS = """
pub struct HelloV { pub name: Seq<u8>, pub major: u64, pub minor: u64, pub revision: u64, pub tz: Tz, pub display: Seq<u8>, pub patch: u64 }
pub enum PacketV { Hello(HelloV), Pong, Progress(Progress), ProfileInfo(ProfileInfo), TableColumns(Seq<u8>, Seq<u8>), Exception(u32, Seq<u8>, Seq<u8>, Seq<u8>), Block(BlockV), Eof }
impl ServerInfo { pub open spec fn v(&self) -> HelloV { HelloV { name: encode_utf8(self.name@), major: self.major_version, minor: self.minor_version, revision: self.revision, tz: self.timezone, display: encode_utf8(self.display_name@), patch: self.patch_version } } }
impl<S> Packet<S> {
    pub open spec fn v(&self) -> PacketV {
        match self {
            Packet::Hello(_, i) => PacketV::Hello(i.v()), Packet::Pong(_) => PacketV::Pong, Packet::Progress(p) => PacketV::Progress(*p), Packet::ProfileInfo(p) => PacketV::ProfileInfo(*p),
            Packet::TableColumns(t) => PacketV::TableColumns(encode_utf8(t.table_name@), encode_utf8(t.columns@)),
            Packet::Exception(e) => PacketV::Exception(e.code, encode_utf8(e.name@), encode_utf8(e.message@), encode_utf8(e.stack_trace@)),
            Packet::Block(b) => PacketV::Block(b.v()), Packet::Eof(_) => PacketV::Eof,
        }
    }
}
// the fields each packet has, by protocol revision
""" + "pub open spec fn p_hello(s: Seq<u8>) -> P<PacketV> { " + chain([
    ("name", "p_str({})"), ("major", "p_var({})"), ("minor", "p_var({})"), ("rev", "p_var({})"),
    ("tz", "(if rev >= 54058 {{ p_tz({0}) }} else {{ p_none(TZ_UTC, {0}) }})"),
    ("display", "(if rev >= 54372 {{ p_str({0}) }} else {{ p_none(Seq::empty(), {0}) }})"),
    ("patch", "(if rev >= 54401 {{ p_var({0}) }} else {{ p_none(0u64, {0}) }})")],
    "P::Val(PacketV::Hello(HelloV {{ name, major, minor, revision: rev, tz, display, patch }}), {})") + " }\n" + \
    "pub open spec fn p_progress(s: Seq<u8>, rev: u64) -> P<PacketV> { " + chain([
        ("rows", "p_var({})"), ("bytes", "p_var({})"), ("total_rows", "(if rev >= 51554 {{ p_var({0}) }} else {{ p_none(0u64, {0}) }})"),
        ("written_rows", "(if rev >= 54420 {{ p_var({0}) }} else {{ p_none(0u64, {0}) }})"), ("written_bytes", "(if rev >= 54420 {{ p_var({0}) }} else {{ p_none(0u64, {0}) }})")],
        "P::Val(PacketV::Progress(Progress {{ rows, bytes, total_rows, written_rows, written_bytes }}), {})") + " }\n" + \
    "pub open spec fn p_profile(s: Seq<u8>) -> P<PacketV> { " + chain([
        ("rows", "p_var({})"), ("blocks", "p_var({})"), ("bytes", "p_var({})"), ("applied_limit", "p_bool({})"), ("rows_before_limit", "p_var({})"), ("calculated_rows_before_limit", "p_bool({})")],
        "P::Val(PacketV::ProfileInfo(ProfileInfo {{ rows, bytes, blocks, applied_limit, rows_before_limit, calculated_rows_before_limit }}), {})") + " }\n" + \
    "pub open spec fn p_columns(s: Seq<u8>) -> P<PacketV> { " + chain([("t", "p_str({})"), ("c", "p_str({})")], "P::Val(PacketV::TableColumns(t, c), {})") + " }\n" + \
    "pub open spec fn p_exception(s: Seq<u8>) -> P<PacketV> { " + chain([("code", "p_u32({})"), ("n", "p_str({})"), ("m", "p_str({})"), ("t", "p_str({})")], "P::Val(PacketV::Exception(code, n, m, t), {})") + " }\n" + \
    "pub open spec fn p_data(s: Seq<u8>, tz: Option<Tz>, compress: bool) -> P<PacketV> { match tz { None => P::Bad, Some(tz) => " + chain([("name", "p_raw({})"), ("b", "p_block({}, tz, compress)")], "P::Val(PacketV::Block(b), {})") + " } }\n" + """
pub open spec fn p_packet(s: Seq<u8>, rev: u64, tz: Option<Tz>, compress: bool) -> P<PacketV> {
    match p_var(s) {
        P::More => P::More, P::Bad => P::Bad,
        P::Val(code, r) =>
            if code == 0 { p_hello(r) } else if code == 1 || code == 7 || code == 8 { p_data(r, tz, compress) } else if code == 2 { p_exception(r) }
            else if code == 3 { p_progress(r, rev) } else if code == 4 { P::Val(PacketV::Pong, r) } else if code == 5 { P::Val(PacketV::Eof, r) }
            else if code == 6 { p_profile(r) } else if code == 11 { p_columns(r) } else { P::Bad },
    }
}
"""

# ---- decoding is stable under more bytes, and consumes
STABLE = """
pub open spec fn stable<V>(a: P<V>, b: P<V>, d: Seq<u8>, n: nat) -> bool { (a matches P::Val(v, r) ==> b == P::Val(v, r + d) && r.len() <= n) && (a is Bad ==> b is Bad) }
pub proof fn lemma_dec_more(s: Seq<u8>, d: Seq<u8>, i: nat, acc: nat)
    ensures !(dec_from(s, i, acc) is Incomplete) ==> dec_from(s + d, i, acc) == dec_from(s, i, acc) decreases s.len() - i
{ if i < s.len() { assert((s + d)[i as int] == s[i as int]); if s[i as int] >= 128 && i < 9 { lemma_dec_more(s, d, i + 1, acc + (s[i as int] - 128) as nat * pow2(7 * i)); } } }
pub proof fn st_var(s: Seq<u8>, d: Seq<u8>) ensures stable(p_var(s), p_var(s + d), d, s.len()), p_var(s) matches P::Val(_, r) ==> r.len() < s.len()
{ lemma_dec_more(s, d, 0, 0); lemma_str(s); if let Dec::Val(v, n) = dec(s) { assert((s + d).skip(n as int) =~= s.skip(n as int) + d); } }
pub proof fn st_raw(s: Seq<u8>, d: Seq<u8>) ensures stable(p_raw(s), p_raw(s + d), d, s.len()), stable(p_str(s), p_str(s + d), d, s.len())
{
    lemma_dec_more(s, d, 0, 0); lemma_str(s); lemma_str(s + d);
    if let Dec::Val(n, k) = dec(s) { if s.len() >= k + n { assert((s + d).skip(k as int).take(n as int) =~= s.skip(k as int).take(n as int)); assert((s + d).skip((k + n) as int) =~= s.skip((k + n) as int) + d); } }
}
pub proof fn st_bool(s: Seq<u8>, d: Seq<u8>) ensures stable(p_bool(s), p_bool(s + d), d, s.len()) { if s.len() >= 1 { assert((s + d).skip(1) =~= s.skip(1) + d); } }
pub proof fn st_u32(s: Seq<u8>, d: Seq<u8>) ensures stable(p_u32(s), p_u32(s + d), d, s.len()) { if s.len() >= 4 { assert((s + d).skip(4) =~= s.skip(4) + d); assert((s + d).take(4) =~= s.take(4)); } }
pub proof fn st_tz(s: Seq<u8>, d: Seq<u8>) ensures stable(p_tz(s), p_tz(s + d), d, s.len()) { st_raw(s, d); }
"""


def st(name, params, args, steps, kinds):
    """stability of a chained decoder: apply the part lemmas along the chain"""
    body, end, cur = "", "", "s"
    for i, ((b, e), k) in enumerate(zip(steps, kinds)):
        body += f"{k}({cur}, d); if let P::Val({b}, s{i + 1}) = {e.format(cur)} {{ "
        end += " }"
        cur = f"s{i + 1}"
    return f"pub proof fn st_{name}(s: Seq<u8>, d: Seq<u8>{params}) ensures stable(p_{name}(s{args}), p_{name}(s + d{args}), d, s.len()) {{ {body}{end} }}\n"


STABLE2 = st("hello", "", "", [("name", "p_str({})"), ("major", "p_var({})"), ("minor", "p_var({})"), ("rev", "p_var({})"),
    ("tz", "(if rev >= 54058 {{ p_tz({0}) }} else {{ p_none(TZ_UTC, {0}) }})"),
    ("display", "(if rev >= 54372 {{ p_str({0}) }} else {{ p_none(Seq::empty(), {0}) }})"),
    ("patch", "(if rev >= 54401 {{ p_var({0}) }} else {{ p_none(0u64, {0}) }})")], ["st_raw", "st_var", "st_var", "st_var", "st_tz", "st_raw", "st_var"]) + \
    st("progress", ", rev: u64", ", rev", [("rows", "p_var({})"), ("bytes", "p_var({})"), ("total_rows", "(if rev >= 51554 {{ p_var({0}) }} else {{ p_none(0u64, {0}) }})"),
        ("written_rows", "(if rev >= 54420 {{ p_var({0}) }} else {{ p_none(0u64, {0}) }})"), ("written_bytes", "(if rev >= 54420 {{ p_var({0}) }} else {{ p_none(0u64, {0}) }})")], ["st_var"] * 5) + \
    st("profile", "", "", [("rows", "p_var({})"), ("blocks", "p_var({})"), ("bytes", "p_var({})"), ("applied_limit", "p_bool({})"), ("rows_before_limit", "p_var({})"), ("c", "p_bool({})")], ["st_var", "st_var", "st_var", "st_bool", "st_var", "st_bool"]) + \
    st("columns", "", "", [("t", "p_str({})"), ("c", "p_str({})")], ["st_raw"] * 2) + \
    st("exception", "", "", [("code", "p_u32({})"), ("n", "p_str({})"), ("m", "p_str({})"), ("t", "p_str({})")], ["st_u32", "st_raw", "st_raw", "st_raw"]) + """
pub proof fn st_data(s: Seq<u8>, d: Seq<u8>, tz: Option<Tz>, compress: bool) ensures stable(p_data(s, tz, compress), p_data(s + d, tz, compress), d, s.len())
{ st_raw(s, d); if let P::Val(n, s1) = p_raw(s) { if let Some(t) = tz { axiom_block(s1, d, t, compress); } } }
// bytes that arrive later change nothing about a packet that is complete (or known to be malformed)
pub proof fn theorem_packet_stable(s: Seq<u8>, d: Seq<u8>, rev: u64, tz: Option<Tz>, compress: bool)
    ensures stable(p_packet(s, rev, tz, compress), p_packet(s + d, rev, tz, compress), d, s.len()), p_packet(s, rev, tz, compress) matches P::Val(_, r) ==> r.len() < s.len()
{
    st_var(s, d);
    if let P::Val(c, r) = p_var(s) { st_hello(r, d); st_progress(r, d, rev); st_profile(r, d); st_columns(r, d); st_exception(r, d); st_data(r, d, tz, compress); }
}
// ---- the packets in a stream of bytes ----
pub struct Ctx { pub rev: u64, pub tz: Option<Tz>, pub compress: bool }
pub open spec fn learn(c: Ctx, p: PacketV) -> Ctx { match p { PacketV::Hello(h) => Ctx { rev: h.revision, tz: Some(h.tz), compress: c.compress }, _ => c } }
pub open spec fn at_head(s: Seq<u8>, c: Ctx) -> P<PacketV> { p_packet(s, c.rev, c.tz, c.compress) }
pub open spec fn packets(s: Seq<u8>, c: Ctx) -> Seq<PacketV> decreases s.len() {
    match at_head(s, c) { P::Val(p, r) => if r.len() < s.len() { seq![p] + packets(r, learn(c, p)) } else { Seq::empty() }, _ => Seq::empty() }
}
// a transport as a machine: bytes arrive in any portions, complete packets at the head are handed out
pub enum Step { Arrive(Seq<u8>), Deliver }
pub struct Mach { pub out: Seq<PacketV>, pub buf: Seq<u8>, pub c: Ctx }
pub open spec fn step(m: Mach, e: Step) -> Mach {
    match e { Step::Arrive(d) => Mach { buf: m.buf + d, ..m },
        Step::Deliver => match at_head(m.buf, m.c) { P::Val(p, r) => Mach { out: m.out.push(p), buf: r, c: learn(m.c, p) }, _ => m } }
}
pub open spec fn arrived(es: Seq<Step>) -> Seq<u8> decreases es.len() { if es.len() == 0 { Seq::empty() } else { arrived(es.drop_last()) + match es.last() { Step::Arrive(d) => d, _ => Seq::empty() } } }
pub open spec fn run(c: Ctx, es: Seq<Step>) -> Mach decreases es.len() { if es.len() == 0 { Mach { out: Seq::empty(), buf: Seq::empty(), c } } else { step(run(c, es.drop_last()), es.last()) } }
pub proof fn lemma_packets_more(s: Seq<u8>, d: Seq<u8>, c: Ctx)
    requires at_head(s, c) is Val ensures ({ let p = at_head(s, c)->Val_0; let r = at_head(s, c)->Val_1; packets(s + d, c) == seq![p] + packets(r + d, learn(c, p)) })
{ theorem_packet_stable(s, d, c.rev, c.tz, c.compress); }
// however the bytes are split and whenever packets are taken out: what has been handed out, followed by what the
// bytes still buffered (and any yet to come, `d`) hold, is what all the bytes together hold
pub proof fn theorem_split_independent(c: Ctx, es: Seq<Step>, d: Seq<u8>)
    ensures ({ let m = run(c, es); packets(arrived(es) + d, c) == m.out + packets(m.buf + d, m.c) }) decreases es.len()
{
    hide(at_head); hide(packets);
    if es.len() == 0 { assert(Seq::<PacketV>::empty() + packets(d, c) =~= packets(d, c)); assert(run(c, es).out =~= Seq::<PacketV>::empty()); assert(arrived(es) + d =~= d); assert(run(c, es).buf + d =~= d); }
    else {
        let m0 = run(c, es.drop_last());
        match es.last() {
            Step::Arrive(x) => { theorem_split_independent(c, es.drop_last(), x + d); assert(arrived(es) + d =~= arrived(es.drop_last()) + (x + d)); assert((m0.buf + x) + d =~= m0.buf + (x + d)); },
            Step::Deliver => {
                theorem_split_independent(c, es.drop_last(), d);
                assert(arrived(es) =~= arrived(es.drop_last()));
                if let P::Val(p, r) = at_head(m0.buf, m0.c) {
                    lemma_packets_more(m0.buf, d, m0.c);
                    assert(m0.out + (seq![p] + packets(r + d, learn(m0.c, p))) =~= m0.out.push(p) + packets(r + d, learn(m0.c, p)));
                }
            },
        }
    }
}
"""

TR = (r"(?:trace|warn)!\(.*?\);", "", "logging dropped")
PROTO = (r"protocol::(?=[A-Z])", "", "module path")


def build():
    u = Unit("packets", rewrites=C.COMMON_RW + [PROTO])
    u.text(C.HEADER + "verus! {\nglobal size_of usize == 8;\n")
    C.errors(u)
    u.text(C.WIRE_SPEC)
    u.text(W.READ_TRAITS)
    W.scalars(u, only=("u8", "i32", "u32", "u64"))
    u.text(SPEC)
    u.item(TY, "struct Progress", attrs="#[derive(Clone, Copy)]")
    u.item(TY, "struct ProfileInfo", attrs="#[derive(Clone, Copy)]")
    u.item(TY, "struct TableColumns")
    u.item(TY, "struct ServerInfo")
    u.item(TY, "enum Packet")
    u.text(VIEWS)
    u.text(STABLE)
    u.text(STABLE2)
    for c in ("DBMS_MIN_REVISION_WITH_TOTAL_ROWS_IN_PROGRESS DBMS_MIN_REVISION_WITH_SERVER_TIMEZONE DBMS_MIN_REVISION_WITH_SERVER_DISPLAY_NAME DBMS_MIN_REVISION_WITH_VERSION_PATCH "
              "DBMS_MIN_REVISION_WITH_CLIENT_WRITE_INFO SERVER_HELLO SERVER_DATA SERVER_EXCEPTION SERVER_PROGRESS SERVER_PONG SERVER_END_OF_STREAM SERVER_PROFILE_INFO SERVER_TOTALS SERVER_EXTREMES SERVER_TABLE_COLUMNS").split():
        u.item(PR, "const " + c)
    parser(u)
    from . import transport as TP
    TP.transport(u)
    u.text("} fn main() {}")
    return u


def parser(u):
    u.item(T, "struct TransportInfo", rewrites=[(r"pub\(crate\) ", "pub ", "")])
    u.item(P, "struct Parser", rewrites=[K.PUBF])
    u.text("""
pub open spec fn parsed<S: ReadEx>(r: Result<Packet<()>>, p: P<PacketV>, a: S, b: S) -> bool {
    match p { P::Val(v, rest) => r is Ok && r->Ok_0.v() == v && b.rest() == rest, P::More => r is Err && is_would_block(r->Err_0), P::Bad => r is Err && !is_would_block(r->Err_0) }
}
impl<'i, T: ReadEx> Parser<'i, T> {""")
    G = (P, r"impl ^impl<'i, T: Read> Parser<'i, T>$")

    def sp(p):
        return f"""requires old(self).reader.steady()
        ensures same_end(final(self).reader, old(self).reader), final(self).info == old(self).info, parsed(r, {p}, old(self).reader, final(self).reader)"""
    U = [("start", "", "proof { lemma_utf8_empty(); }")]
    u.fn(*G, "fn new", vis="pub", spec="ensures r.reader == reader, r.info == info", sig=[(r"Parser<T>", "Parser<'i, T>", "elided lifetime written out")])
    u.fn(*G, "fn parse_packet", vis="pub", rewrites=[TR], spec=sp("p_packet(old(self).reader.rest(), revision, old(self).info.timezone, old(self).info.compress)"))
    u.fn(*G, "fn parse_block", vis="pub", rewrites=[TR], spec=sp("p_data(old(self).reader.rest(), old(self).info.timezone, old(self).info.compress)"))
    u.fn(*G, "fn parse_server_info", vis="pub", hints=U, rewrites=[TR, (r"self\.reader\.read_string\(\)\?\.parse\(\)", "tz_parse(self.reader.read_string()?)", "Tz::from_str through a stub"),
         (r"io::Error::new\(io::ErrorKind::Other, err\)\.into\(\)", "Error::from(io::Error::new(io::ErrorKind::Other, err))", "x.into() written as Error::from(x)"),
         (r'""\.into\(\)', "String::new()", "empty text"), (r"Tz::UTC", "TZ_UTC", "")], spec=sp("p_hello(old(self).reader.rest())"))
    u.fn(*G, "fn parse_progress", vis="pub", rewrites=[TR], spec=sp("p_progress(old(self).reader.rest(), revision)"))
    u.fn(*G, "fn parse_profile_info", vis="pub", rewrites=[TR], spec=sp("p_profile(old(self).reader.rest())"))
    u.fn(*G, "fn parse_table_columns", vis="pub", rewrites=[TR], spec=sp("p_columns(old(self).reader.rest())"))
    u.fn(*G, "fn parse_exception", vis="pub", rewrites=[TR], spec=sp("p_exception(old(self).reader.rest())"))
    u.fn(*G, "fn parse_pong", vis="pub", rewrites=[TR], spec="ensures r.v() == PacketV::Pong")
    u.text("""}
pub proof fn lemma_utf8_empty() ensures encode_utf8(Seq::<char>::empty()) == Seq::<u8>::empty() { reveal_with_fuel(encode_utf8, 2); assert(encode_utf8(Seq::<char>::empty()) =~= Seq::<u8>::empty()); }
""")
