"""Client messages: hello, query with its settings, ping, cancel, data."""
from rsx import Unit
from . import common as C, wire as W, cols as K

CM = "src/types/cmd.rs"
CI = "src/client_info.rs"
PR = "src/binary/protocol.rs"
OP = "src/types/options.rs"
QY = "src/types/query.rs"
TY = "src/types/mod.rs"

STUBS = """
// ---- a block and the data message it is written as (the subject of the blocks unit) ----
#[verifier::external_body] pub struct Block { _p: () }
pub uninterp spec fn no_block() -> Block;
impl Block {
    pub uninterp spec fn message(&self, compress: bool) -> Seq<u8>;
    #[verifier::external_body] pub fn send_data(&self, encoder: &mut Encoder, compress: bool) ensures final(encoder)@ == old(encoder)@ + self.message(compress) { unimplemented!() }
    #[verifier::external_body] pub fn default() -> (r: Block) ensures r == no_block() { unimplemented!() }
}
// ---- options: the source yields the same options every time; a HashMap is iterated in some order, every entry once ----
#[verifier::external_body] pub struct OptionsSource { _p: () }
impl OptionsSource {
    pub uninterp spec fn opts(&self) -> Options;
    #[verifier::external_body] pub fn get(&self) -> (r: Result<&Options>) ensures r matches Ok(o) ==> *o == self.opts() { unimplemented!() }
}
#[verifier::external_body] pub struct Settings { _p: () }
impl Settings {
    pub uninterp spec fn entries(&self) -> Seq<(String, SettingValue)>;
    #[verifier::external_body] pub fn listed(&self) -> (r: &Vec<(String, SettingValue)>) ensures r@ == self.entries() { unimplemented!() }
}
// Display of numbers and truth values
pub uninterp spec fn f64_text(v: f64) -> Seq<char>;
pub uninterp spec fn shown(v: SettingType) -> Seq<char>;
#[verifier::external_body] pub fn f64_to_string(v: &f64) -> (r: String) ensures r@ == f64_text(*v) { unimplemented!() }
pub struct ServerInfo { pub revision: u64 }
"""

SPEC = """
// ---- the protocol: what each message consists of ----
pub open spec fn s_client() -> Seq<u8> { enc_str("Rust SQLDriver"@) + enc(1) + enc(1) + enc(54429) }
pub open spec fn s_hello(o: Options) -> Seq<u8> { enc(0) + s_client() + enc_str(o.database@) + enc_str(o.username@) + enc_str(o.password@) }
pub open spec fn s_setting(old_format: bool, e: (String, SettingValue)) -> Seq<u8> {
    enc_str(e.0@) + if old_format { match e.1.value {
        SettingType::String(t) => enc_str(t@),
        SettingType::Bool(b) => enc(if b { 1 } else { 0 }),
        SettingType::Float64(v) => enc_str(f64_text(v)),
        SettingType::UInt64(v) => enc(v as nat) } }
    else { seq![if e.1.is_important { 1u8 } else { 0u8 }] + enc_str(shown(e.1.value)) }
}
pub open spec fn s_settings(old_format: bool, es: Seq<(String, SettingValue)>) -> Seq<u8> decreases es.len() { if es.len() == 0 { Seq::empty() } else { s_settings(old_format, es.drop_last()) + s_setting(old_format, es.last()) } }
pub open spec fn size(c: Cmd) -> nat decreases c { match c { Cmd::Union(a, b) => 2 + size(*a) + size(*b), _ => 0 } }
pub open spec fn when(c: bool, s: Seq<u8>) -> Seq<u8> { if c { s } else { Seq::empty() } }
pub open spec fn nil() -> Seq<char> { Seq::empty() }
pub open spec fn s_query(sql: Seq<char>, id: Seq<char>, host: Seq<char>, rev: u64, o: Options) -> Seq<u8> {
    enc(1) + enc_str(nil())
    + enc(1) + enc_str(nil()) + enc_str(id) + enc_str("[::ffff:127.0.0.1]:0"@) + enc(1) + enc_str(host) + enc_str(host) + s_client()
    + when(rev >= 54060, enc_str(nil())) + when(rev >= 54401, enc(0))
    + s_settings(rev < 54429, o.settings.entries()) + enc_str(nil())
    + enc(2) + enc(if o.compression { 1 } else { 0 }) + enc_str(sql) + no_block().message(o.compression)
}
pub open spec fn s_cmd(c: Cmd) -> Seq<u8> decreases c {
    match c {
        Cmd::Hello(x) => s_hello(x.options.opts()),
        Cmd::Ping => enc(4),
        Cmd::SendQuery(q, x) => s_query(q.sql@, q.id@, x.hostname@, x.server_info.revision, x.options.opts()),
        Cmd::SendData(b, x) => b.message(x.options.opts().compression),
        Cmd::Union(a, b) => s_cmd(*a) + s_cmd(*b),
        Cmd::Cancel => enc(3),
    }
}
"""
TR = (r"trace!\([^;]*\);", "", "logging dropped")
PROTO = (r"(?:protocol|client_info)::(?=[A-Z])", "", "module path")
NIL = 'proof { reveal_strlit(""); assert(""@ =~= nil()); }'


def build():
    u = Unit("cmds", rewrites=C.COMMON_RW + [PROTO, (r"client_info::write\(", "client_write(", "module path")])
    u.text(C.HEADER + "verus! {\nglobal size_of usize == 8;\n")
    C.errors(u)
    u.text(C.WIRE_SPEC)
    u.text(W.READ_TRAITS)
    W.scalars(u, only=("u8", "bool"))
    W.put_uvarint(u)
    W.encoder(u)
    u.text(STUBS)
    u.item(OP, "enum SettingType", attrs="")
    u.item(OP, "struct SettingValue", rewrites=[(r"pub\(crate\) ", "pub ", "")])
    u.text("""impl SettingValue {
    // Display for SettingValue
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == shown(self.value) { unimplemented!() }
}
pub struct Options { pub database: String, pub username: String, pub password: String, pub compression: bool, pub settings: Settings }
pub struct Context { pub server_info: ServerInfo, pub hostname: String, pub options: OptionsSource }
""")
    u.item(QY, "struct Query", rewrites=[K.PUBF])
    u.item(CM, "enum Cmd", rewrites=[(r"pub\(crate\)", "pub", "")])
    u.text(SPEC)
    for c in "DBMS_MIN_REVISION_WITH_QUOTA_KEY_IN_CLIENT_INFO DBMS_MIN_REVISION_WITH_VERSION_PATCH DBMS_MIN_REVISION_WITH_SETTINGS_SERIALIZED_AS_STRINGS CLIENT_HELLO CLIENT_QUERY CLIENT_CANCEL CLIENT_PING COMPRESS_ENABLE COMPRESS_DISABLE STATE_COMPLETE".split():
        u.item(PR, "const " + c)
    for c in "CLICK_HOUSE_REVISION CLICK_HOUSE_DBMSVERSION_MAJOR CLICK_HOUSE_DBMSVERSION_MINOR".split():
        u.item(CI, "const " + c)
    u.item(CI, "static CLIENT_NAME", rewrites=[(r"pub static CLIENT_NAME: &str", "pub const CLIENT_NAME: &'static str", "static text -> const")])
    u.item(CM, "enum SettingsBinaryFormat", rewrites=[(r"^enum", "pub enum", "")], attrs="")
    u.text("""impl Query {""")
    Q = (QY, r"impl ^impl Query$")
    AR = [(r"impl AsRef<str>", "impl AsRefStr", "impl AsRef<str> bound through a stub trait")]
    u.fn(*Q, "fn new", vis="pub", sig=AR, spec="ensures r.sql@ == sql.chars(), r.id@ == nil()", hints=[("start", "", NIL)], rewrites=[(r'"".to_string\(\)', "String::new()", "empty text")])
    u.fn(*Q, "fn id", vis="pub", sig=AR, spec="ensures r.id@ == id.chars(), r.sql == self.sql")
    u.fn(*Q, "fn get_sql", vis="pub", spec="ensures r@ == self.sql@")
    u.fn(*Q, "fn get_id", vis="pub", spec="ensures r@ == self.id@")
    u.text("}")
    u.fn(CI, "fn write", rename="client_write", vis="pub", spec="ensures final(encoder)@ == old(encoder)@ + s_client()",
         hints=[("end", "", "proof { assert(encoder@ =~= old(encoder)@ + s_client()); }")])
    u.fn(CM, "fn encode_hello", vis="pub", rewrites=[TR], spec="ensures r matches Ok(b) ==> b@ == s_hello(context.options.opts())",
         hints=[("before", r"Ok\(encoder\.get_buffer", "proof { assert(encoder@ =~= s_hello(context.options.opts())); }")])
    u.fn(CM, "fn encode_ping", vis="pub", rewrites=[TR], spec="ensures r@ == enc(4)", hints=[("before", r"encoder\.get_buffer", "proof { assert(encoder@ =~= enc(4)); }")])
    u.fn(CM, "fn encode_cancel", vis="pub", rewrites=[TR], spec="ensures r@ == enc(3)", hints=[("before", r"encoder\.get_buffer", "proof { assert(encoder@ =~= enc(3)); }")])
    u.fn(CM, "fn encode_query", vis="pub", rewrites=[TR, (r"Block::<Simple>::", "Block::", "type parameter dropped")],
         spec="ensures r matches Ok(b) ==> b@ == s_query(query.sql@, query.id@, context.hostname@, context.server_info.revision, context.options.opts())",
         hints=[("start", "", NIL), ("before", r"Ok\(encoder\.get_buffer", "proof { assert(encoder@ =~= s_query(query.sql@, query.id@, context.hostname@, context.server_info.revision, context.options.opts())); }")])
    LOOP = """
            invariant encoder@ == old(encoder)@ + s_settings(%s, options.settings.entries().take(it.index@)),
                it.seq().len() == options.settings.entries().len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == options.settings.entries()[i]"""
    ST = """let name = &kv.0; let value = &kv.1; let ghost k = it.index@; let ghost es = options.settings.entries(); let ghost e0 = encoder@;
            proof { assert(*it.seq()[k] == es[k]); assert(es.take(k + 1).drop_last() =~= es.take(k)); assert(es.take(k + 1).last() == es[k]); }"""
    EN = "proof { assert(encoder@ =~= e0 + s_setting(%s, es[k])); assert(encoder@ =~= old(encoder)@ + s_settings(%s, es.take(k + 1))); }"
    B4 = "proof { assert(options.settings.entries().take(0) =~= Seq::<(String, SettingValue)>::empty()); assert(encoder@ =~= old(encoder)@ + s_settings(%s, options.settings.entries().take(0))); }"
    HD = r"^for kv in it: options\.settings\.listed\(\)\.iter\(\)$"
    u.fn(CM, "fn serialize_settings", vis="pub",
         rewrites=[(r"for \(name, value\) in &options\.settings \{", "for kv in it: options.settings.listed().iter() {", "iteration over the HashMap as a list of its entries"),
                   (r"format < SettingsBinaryFormat::(\w+)", r"(format as u8) < (SettingsBinaryFormat::\1 as u8)", "derived PartialOrd of a fieldless enum written as comparison of discriminants"),
                   (r"\(val == &true\)", "(*val == true)", "comparison of references written on the values"),
                   (r"encoder\.string\(val\.to_string\(\)\)", "encoder.string(f64_to_string(val))", "Display for f64 through a stub")],
         spec="ensures final(encoder)@ == old(encoder)@ + s_settings(format is Old, options.settings.entries()) + enc_str(nil())",
         loops=[dict(head=HD, spec=LOOP % "true", start=ST, end=EN % ("true", "true"), before=B4 % "true"),
                dict(head=HD, spec=LOOP % "false", start=ST, end=EN % ("false", "false"), before=B4 % "false")],
         hints=[("start", "", NIL), ("end", "", "proof { let es = options.settings.entries(); assert(es.take(es.len() as int) =~= es); }")])
    u.fn(CM, "fn encode_data", vis="pub", spec="ensures r matches Ok(b) ==> b@ == block.message(context.options.opts().compression)",
         hints=[("before", r"Ok\(encoder\.get_buffer", "proof { assert(encoder@ =~= block.message(context.options.opts().compression)); }")])
    u.fn(CM, "fn encode_command", vis="pub", rewrites=[(r"(first|second)\.as_ref\(\)", r"&**\1", "Box::as_ref written as a reborrow")], spec="ensures r matches Ok(b) ==> b@ == s_cmd(*cmd) decreases size(*cmd)")
    u.fn(CM, "fn encode_union", vis="pub", rewrites=[(r"result\.extend\(\(encode_command\(second\)\?\)\.iter\(\)\);", "let tail = encode_command(second)?; result.extend_from_slice(tail.as_slice());", "extend by an iterator written as extend_from_slice")],
         spec="ensures r matches Ok(b) ==> b@ == s_cmd(*first) + s_cmd(*second) decreases 1 + size(*first) + size(*second)")
    u.text("impl Cmd {")
    u.fn(CM, "impl ^impl Cmd$", "fn get_packed_command", vis="pub", spec="ensures r matches Ok(b) ==> b@ == s_cmd(*self)")
    u.text("}")
    u.text("} fn main() {}")
    return u
