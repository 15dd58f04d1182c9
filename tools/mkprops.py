#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed) from the tables below and proofs/registry.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT); sys.path.insert(0, os.path.join(ROOT, "tools"))

def P(id, title, statement, over, text, why, files, mech, obs=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(obs), hook_needed=None))

PROPS = [
P("P01", "Unsigned variable-length integers survive the wire",
  "Every unsigned 64-bit number the client writes is encoded as the shortest base-128 little-endian varint, and reading the encoding of any such number gives that number back and consumes exactly its bytes. An encoding that does not denote a 64-bit number (more than ten bytes, or a tenth byte above 1) is answered with an error, never with a wrapped value or a panic, and an encoding whose end has not arrived yet is reported as incomplete.",
  ["inputs"], "all u64 values; all byte sequences on the reading side, however long",
  "the tests encode and decode a handful of constants; the carry at every 7-bit boundary and the malformed encodings are not sampled",
  ["src/binary/uvarint.rs", "src/binary/read_ex.rs", "src/binary/encoder.rs"],
  [("put_uvarint", "src/binary/uvarint.rs"), ("ReadEx::read_uvarint", "src/binary/read_ex.rs"), ("Encoder::uvarint", "src/binary/encoder.rs")],
  ["bytes sent to the server", "counts and lengths decoded from replies"]),
P("P02", "Strings and fixed-width numbers are framed and decoded exactly",
  "A string is written as its byte length followed by its bytes, and a number of a fixed-width type as its little-endian bytes; reading back yields the identical value and leaves the stream exactly behind it. A string that is not valid UTF-8 where text is required is an error, a string or number whose bytes have not all arrived is reported as incomplete, and skipping a string consumes exactly what reading it would.",
  ["inputs"], "all strings of any length including empty and multi-byte, all values of every integer, float and boolean width, all ways a read can be short",
  "tests use a few short strings and numbers; the lengths around the varint and stack-buffer thresholds and the short reads are not reached",
  ["src/binary/read_ex.rs", "src/binary/encoder.rs", "src/types/marshal.rs", "src/types/unmarshal.rs", "src/types/stat_buffer.rs"],
  [("ReadEx::read_bytes/read_scalar/read_string/skip_string", "src/binary/read_ex.rs"), ("Encoder::string/byte_string/write", "src/binary/encoder.rs"), ("Marshal/Unmarshal/StatBuffer", "src/types")],
  ["bytes sent to the server", "server exceptions, column names and cells decoded from replies"]),
P("P03", "Server packets decode the same however their bytes arrive",
  "The sequence of packets the client observes in a reply depends only on the bytes the server sent, not on how they were split into reads: a packet whose bytes are incomplete is never delivered, consumed in part or reported as an error, and a complete one is delivered exactly once with the fields the negotiated protocol revision prescribes. Bytes after a packet are kept for the next one, and packets that are already complete are delivered even if the server closes the connection right behind them.",
  ["inputs", "schedules"], "every reply (hello, data, totals, extremes, progress, profile, exception, pong, end of stream) at every server revision, and every partition of its bytes into reads",
  "tests parse whole packets from one buffer; the number of possible splits is exponential in the reply length",
  ["src/binary/parser.rs", "src/io/transport.rs", "src/io/read_to_end.rs", "src/types/mod.rs"],
  [("Parser::parse_packet", "src/binary/parser.rs"), ("ClickhouseTransport::try_parse_msg/poll_next", "src/io/transport.rs"), ("read_to_end", "src/io/read_to_end.rs")],
  ["blocks, errors and end of the stream returned to the caller"]),
P("P04", "Client messages follow the negotiated protocol revision",
  "The hello, query, ping, cancel and data messages the client sends are byte-for-byte what the server revision it negotiated expects: query text, query id, database, user, password and every setting arrive unchanged, the fields that only some revisions have are sent exactly to those revisions, and settings are sent typed or as strings as that revision requires. Sending a message has no other effect on the stream: messages arrive complete, in order and without extra bytes.",
  ["inputs", "configurations"], "all query texts, ids, credentials and settings, and every server revision",
  "the tests check one recorded hello and query at one revision",
  ["src/types/cmd.rs", "src/client_info.rs", "src/types/query.rs", "src/types/options.rs", "src/io/transport.rs", "src/binary/protocol.rs"],
  [("Cmd::encode and encode_query/encode_hello", "src/types/cmd.rs"), ("ClientInfo::write", "src/client_info.rs")],
  ["bytes received by the server"]),
P("P05", "Blocks are encoded and decoded without changing any cell",
  "A block received from the server presents exactly the columns, names, types, row count and cell values that were sent, for every supported column type; sending a block writes exactly its columns with their names, types and cells. Receiving a block and sending it back is the identity on its contents.",
  ["inputs"], "all blocks: any number of columns and rows, every supported type including nested ones, all cell values, both compressed and plain",
  "tests round-trip one small example per type, mostly without nesting and with few rows",
  ["src/types/block/mod.rs", "src/types/block/block_info.rs", "src/types/column/mod.rs", "src/types/column/factory.rs", "src/types/column/numeric.rs", "src/types/column/list.rs", "src/types/mod.rs"],
  [("Block::load/write", "src/types/block/mod.rs"), ("Column::read/write", "src/types/column/mod.rs"), ("type name parsing", "src/types/column/factory.rs"), ("VectorColumnData", "src/types/column/numeric.rs")],
  ["cells read from a received block", "bytes received by the server"]),
P("P06", "Compressed frames are verified before any byte of them is used",
  "The client accepts a compressed frame only if its checksum, method byte and both sizes are consistent with its payload, and then yields exactly the bytes the frame encodes; any other frame is answered with an error and none of its contents is delivered. Frames the client sends carry the right checksum, sizes and method, and decompress to exactly the block; a block split over several frames reads like one.",
  ["inputs"], "all frames, including every single-bit corruption and every inconsistent size, and all splits of a block into frames",
  "tests decode recorded good frames only",
  ["src/types/block/compressed.rs", "src/types/block/mod.rs", "clickhouse-rs-cityhash-sys/src/lib.rs"],
  [("CompressedReader", "src/types/block/compressed.rs"), ("decompress_buffer", "src/types/block/compressed.rs"), ("Block::send_data", "src/types/block/mod.rs")],
  ["error or cells returned to the caller", "frames received by the server"]),
P("P07", "An insert delivers every row exactly once and in order",
  "Inserting a block sends each of its rows exactly once and in order, in data blocks of at most 1,048,576 rows followed by one empty block, each column under its own name and converted to the table's column type. A block without rows sends only the terminating empty block.",
  ["inputs"], "all row counts around and beyond the chunk size, all column types and table column types the client can convert between",
  "tests insert a few rows; the chunk boundary at 1,048,576 rows and the ranges of nested columns inside a chunk are not reached",
  ["src/lib.rs", "src/types/block/chunk_iterator.rs", "src/types/column/chunk.rs", "src/types/block/mod.rs"],
  [("ClientHandle::insert_", "src/lib.rs"), ("ChunkIterator", "src/types/block/chunk_iterator.rs"), ("ChunkColumnData", "src/types/column/chunk.rs"), ("Block::cast_to", "src/types/block/mod.rs")],
  ["data blocks received by the server"]),
P("P08", "A string column returns exactly the byte strings put into it",
  "After any sequence of strings is appended to or loaded into a string column, it has that many rows and row i is exactly the i-th byte string, whatever the lengths, including empty strings and strings larger than any internal buffer. Appending never changes the strings already stored, and indexing past the end is not silently answered.",
  ["inputs", "histories"], "all sequences of byte strings, all capacities, all interleavings of loading and appending",
  "tests store a few short strings; growth of the internal storage depends on the sequence of lengths",
  ["src/types/column/string_pool.rs", "src/types/column/string.rs"],
  [("StringPool::allocate/get", "src/types/column/string_pool.rs"), ("StringColumnData", "src/types/column/string.rs")],
  ["cells of the column", "bytes received by the server"]),
P("P09", "Array and map columns keep the elements of every row apart",
  "Row i of an array or map column consists of exactly the elements written for it, in order, for every distribution of row lengths including empty rows and nested arrays; offsets sent to the server are those of the rows actually sent, also when only a part of the column is sent. Offsets received from the server that decrease are reported as an error.",
  ["inputs"], "all row-length distributions and element types, all row ranges, all offset sequences received",
  "tests use a few small arrays; ranges that start inside the column and malformed offsets are not reached",
  ["src/types/column/array.rs", "src/types/column/map.rs"],
  [("ArrayColumnData load/save/push/at", "src/types/column/array.rs"), ("MapColumnData load/save/push/at", "src/types/column/map.rs")],
  ["cells of the column", "bytes received by the server"]),
P("P10", "NULLs stay where they are and values stay next to them",
  "In a nullable column row i is NULL exactly when the i-th row was NULL where it came from, and otherwise holds exactly that value; the null map sent for a range of rows is the one of those rows and has one entry per value sent. NULL is never read as a value of a non-optional type.",
  ["inputs"], "all patterns of NULLs over all inner types and row counts, all row ranges",
  "tests use a few rows with one or two NULLs",
  ["src/types/column/nullable.rs", "src/types/value.rs", "src/types/value_ref.rs"],
  [("NullableColumnData load/save/push/at", "src/types/column/nullable.rs")],
  ["cells of the column", "bytes received by the server"]),
P("P11", "Low-cardinality columns are equivalent to their plain columns",
  "A low-cardinality column presents row by row the same values as the plain column of its inner type would, whatever the dictionary order, its size or the width of the index; sending it (built from plain values or received) writes a dictionary and indices that denote exactly those rows, with an index wide enough for the dictionary. Dictionary indices outside the dictionary are reported as an error.",
  ["inputs"], "all dictionaries including sizes around 256 and 65536 entries, all index sequences, nullable and non-nullable inner types",
  "tests use dictionaries of a handful of entries, so only one index width is exercised",
  ["src/types/column/low_cardinality.rs"],
  [("LowCardinalityColumnData load/save/push/at", "src/types/column/low_cardinality.rs")],
  ["cells of the column", "bytes received by the server"]),
P("P12", "A concatenated result maps every row to its source row",
  "Fetching a whole result presents the rows of all received blocks once each and in the order received, whatever the number and sizes of the blocks, including empty ones; row i of the result is the matching row of the block it came from in every column. The result can be read cell by cell, row by row, by column iteration, and sent back, with the same outcome.",
  ["inputs", "histories"], "all sequences of block sizes, including empty blocks and a single block, all column types",
  "tests concatenate two or three equal blocks",
  ["src/types/column/concat.rs", "src/types/block/mod.rs", "src/types/query_result/mod.rs"],
  [("ConcatColumnData, build_index, find_chunk", "src/types/column/concat.rs"), ("Block::concat", "src/types/block/mod.rs"), ("fetch_all", "src/types/query_result/mod.rs")],
  ["cells and iterators of the fetched block"]),
P("P13", "Decimals are exact",
  "A decimal received, constructed, compared, hashed, printed or converted denotes exactly its unscaled integer divided by ten to its scale, for positive and negative numbers and every scale up to 18: equality and hashing follow the number, printing gives its exact digits. Inserting into a column of another precision or scale stores the same number, truncated toward zero when the target scale is smaller, whenever it is in range.",
  ["inputs"], "all unscaled values and scales, all pairs for equality, all target precisions and scales",
  "tests check a few positive decimals of small scale",
  ["src/types/decimal.rs", "src/types/column/decimal.rs"],
  [("Decimal", "src/types/decimal.rs"), ("DecimalColumnData, adapters", "src/types/column/decimal.rs")],
  ["printed text, equality and numeric conversions", "bytes received by the server"]),
P("P14", "Dates and times denote the same day and instant on both sides",
  "A Date read from or written to the server is the same calendar day, and a DateTime or DateTime64 the same instant (to the precision of the column), in whatever time zone the server, the column or the value is in; before 1970 as well as after where the type allows it. Reading a value and writing it back reproduces the stored number exactly.",
  ["inputs", "configurations"], "all days, all instants representable in the column type, all precisions 0 to 9, all time zones",
  "tests check a few instants in UTC or the local zone, all after 1970",
  ["src/types/column/date.rs", "src/types/column/datetime64.rs", "src/types/column/chrono_datetime.rs", "src/types/date_converter.rs", "src/types/value.rs", "src/types/value_ref.rs", "src/types/from_sql.rs"],
  [("DateConverter", "src/types/date_converter.rs"), ("from_datetime/to_datetime", "src/types/column/datetime64.rs"), ("DateColumnData", "src/types/column/date.rs")],
  ["chrono values returned to the caller", "bytes received by the server"]),
P("P15", "Fixed-length strings keep their length and bytes",
  "A FixedString(n) column holds exactly n bytes per row: shorter strings are padded with zero bytes on the right, longer ones are never stored or sent shifted, and row i is always bytes i*n to (i+1)*n of the data received. The bytes sent for a range of rows are those of these rows.",
  ["inputs"], "all n, all strings (longer ones included), all row ranges",
  "tests use one width and a few strings",
  ["src/types/column/fixed_string.rs"],
  [("FixedStringColumnData, FixedStringAdapterColumnData", "src/types/column/fixed_string.rs")],
  ["cells of the column", "bytes received by the server"]),
P("P16", "Enum, IP address and UUID cells keep their identity",
  "An Enum cell is the same numeric code on both sides and its name is the one the column's type assigns to it, whatever characters the names contain; IPv4, IPv6 and UUID cells are the same address or id on both sides, with the byte order the server uses. Column types sent for enums denote the same names and codes.",
  ["inputs"], "all codes and name tables (including quotes, backslashes, commas and negative codes), all addresses and ids",
  "tests use a couple of enums with plain names and a few addresses",
  ["src/types/column/enums.rs", "src/types/enums.rs", "src/types/column/ip.rs", "src/types/column/factory.rs", "src/types/mod.rs"],
  [("Enum8/Enum16 columns", "src/types/column/enums.rs"), ("parse_enum8/16", "src/types/column/factory.rs"), ("IpColumnData, IpVersion", "src/types/column/ip.rs")],
  ["cells of the column", "bytes and type names received by the server"]),
P("P17", "Typed access returns the stored value or an error, never another value",
  "Reading a cell as a Rust type succeeds exactly when the column's type corresponds to that Rust type, and then returns the stored value unchanged; any other request is an error that does not panic. Rows and columns that do not exist, by position or by name, are reported as errors.",
  ["inputs"], "all pairs of column type and requested type, all rows, all column names",
  "tests request mostly the matching type",
  ["src/types/from_sql.rs", "src/types/value_ref.rs", "src/types/block/mod.rs", "src/types/block/row.rs"],
  [("FromSql implementations", "src/types/from_sql.rs"), ("Block::get/get_column, ColumnIdx", "src/types/block/mod.rs")],
  ["result of reading a cell"]),
P("P18", "The pool never exceeds its maximum, loses a connection or loses a waiter",
  "At every moment at most the configured maximum of handles exists and at most the configured minimum of idle connections is kept; every handle given back, dropped in an error or abandoned while connecting frees its place exactly once and lets a waiting task continue. Connections are opened to the configured hosts in turn.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of tasks taking, using, dropping and abandoning handles, all pool sizes, connections that fail to open or break in use",
  "tests run a handful of tasks in one schedule",
  ["src/pool/mod.rs", "src/pool/futures/get_handle.rs", "src/lib.rs"],
  [("Inner, Pool::poll/handle_futures/take_conn/return_conn", "src/pool/mod.rs"), ("ClientHandle::drop", "src/lib.rs"), ("get_addr", "src/pool/mod.rs")],
  ["number of handles and idle connections", "connections accepted per host"]),
P("P19", "Retrying is bounded and uses the attempts it was given",
  "When a connection is found dead, the client reconnects, makes at most the configured number of further attempts after that first reconnection (none at all if the number is zero) and then reports the error; if the server becomes reachable within these attempts the operation goes through on the new connection. An operation that does not need to retry makes no extra attempt.",
  ["fault_sequences", "configurations"], "all retry limits, all sequences of failing and succeeding reconnects and pings",
  "no test exercises more than one failure",
  ["src/retry_guard.rs", "src/lib.rs"],
  [("retry_guard", "src/retry_guard.rs"), ("ClientHandle::wrap_future/check_connection", "src/lib.rs")],
  ["number of connections the server sees", "result of the operation"]),
P("P20", "A failed or abandoned query is reported and never leaks into the next",
  "If the server closes the connection at any byte of an answer, or sends an exception or an unknown or unexpected packet, the call reports an error (the server's own exception with its code and text) and never panics or pretends to have succeeded. Data of a failed, abandoned or earlier query is never delivered as part of a later one, and after a server exception or an abandoned result the handle or pool can still be used.",
  ["crash_points", "fault_sequences", "histories"], "every operation, every point at which the answer breaks off or is abandoned, every following operation on the same handle or pool",
  "tests need a live server and break connections at few points",
  ["src/lib.rs", "src/types/query_result/stream_blocks.rs", "src/io/transport.rs", "src/types/query_result/mod.rs", "src/pool/mod.rs"],
  [("BlockStream", "src/types/query_result/stream_blocks.rs"), ("ClickhouseTransport::clear/read_block", "src/io/transport.rs"), ("ClientHandle::execute/insert/ping", "src/lib.rs"), ("PoolBinding attach/detach", "src/pool/mod.rs")],
  ["results of the operations", "messages received by the server"]),
P("P21", "Blocks built row by row keep rows aligned and clones independent",
  "Pushing rows that name the same columns, in any order, yields a block whose row i has in every column the value given in the i-th row. A clone of a block equals it, and changing either afterwards leaves the other unchanged, for every column type.",
  ["inputs", "histories"], "all sequences of pushed rows and clones, all column types",
  "tests push a few rows into one block",
  ["src/types/block/mod.rs", "src/types/block/builder.rs", "src/types/column/mod.rs", "src/types/column/array.rs", "src/types/column/nullable.rs"],
  [("Block::push, RCons", "src/types/block/builder.rs"), ("Column::push, clone_instance", "src/types/column")],
  ["cells of both blocks"]),
P("P22", "Column iterators yield exactly the column's cells",
  "Iterating a column as a Rust type yields one item per row, in order, equal to what reading the cells one by one gives, for every column type that supports iteration, for whole results of several blocks and for nested columns. Asking for an item type that does not correspond to the column is an error when the iterator is requested, never undefined behaviour.",
  ["inputs"], "all column types, item types, row counts and numbers of blocks",
  "tests iterate small single-block columns of the matching type",
  ["src/types/column/iter/mod.rs", "src/types/column/concat.rs"],
  [("Iterable implementations, get_internal", "src/types/column/iter/mod.rs")],
  ["items of the iterator"]),
P("P23", "Equality and hashing of values are consistent",
  "Equality of values is reflexive (except NaN), symmetric and transitive, never panics, distinguishes values of different kinds, and values that are equal have equal hashes. Converting a value to its borrowed form and back preserves it.",
  ["inputs"], "all pairs and triples of values of all kinds, nested ones included",
  "tests compare a few pairs of the same kind",
  ["src/types/value.rs", "src/types/value_ref.rs", "src/types/decimal.rs"],
  [("PartialEq/Hash for Value", "src/types/value.rs"), ("PartialEq for ValueRef", "src/types/value_ref.rs")],
  ["results of comparing and hashing"]),
]

def main():
    from proofs.registry import PROOFS, NOTES, NA
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        if i in NA:
            na.append(dict(property=i, reason=NA[i]))
            continue
        assert PROOFS.get(i) or True
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i} --tier thorough",
            technique="contract-based deductive verification (Verus) of functions extracted from /repo on every run; failing inputs searched by replay on the real crate" if PROOFS.get(i) else "bounded replay of the real crate against an independent oracle (no contract within the verifier's reach yet)",
            level="proof" if PROOFS.get(i) else "exploration", level_note=NOTES.get(i, "")))
    m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
             hooks=dict(guard="none", enable="the checks need no hooks in /repo; all commits there are fixes", source_commits=[]))
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")

if __name__ == "__main__":
    main()
