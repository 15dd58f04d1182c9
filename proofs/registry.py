"""Which unit decides which property, and which functions of the unit the property owns."""
PROOFS = {
    "P01": [("wire", [r"uvarint"])],
    "P02": [("wire", [r"read_ex\.rs :: .*(read_bytes|read_scalar|read_string|skip_string)", r"encoder\.rs", r"stat_buffer|marshal|errors"])],
    "P03": [("packets", [r"parser\.rs", r"transport\.rs :: .*(try_parse_msg|poll_next)", r"read_to_end\.rs"])],
    "P04": [("cmds", [r"cmd\.rs", r"client_info\.rs", r"query\.rs"]), ("packets", [r"transport\.rs :: .*(send|wr_)"])],
    "P05": [("numeric", [r"numeric\.rs", r"value\.rs", r"stat_buffer", r"column_data\.rs"]),
            ("blocks", [r"block_info\.rs", r"column/mod\.rs :: .*(read|write|name|sql_type|at|len|new_column)", r"block/mod\.rs :: .*(raw_load|append_column|write|send_data|row_count|column_count|columns|new|with_capacity)"])],
    "P06": [("blocks", [r"compressed\.rs", r"block/mod\.rs :: .*(write|load)"])],
    "P07": [("blocks", [r"chunk", r"block/mod\.rs :: .*(chunks|cast_to|column|append_column|send_data)", r"column/mod\.rs :: .*(slice|column_from|new_column|clone)"]), ("session", [r"lib\.rs :: .*insert"])],
    "P08": [("strings", [r"string_pool\.rs", r"column/string\.rs", r"read_str_into_buffer", r"value\.rs", r"value_ref\.rs", r"column_data\.rs"])],
    "P09": [("arrays", [r"array\.rs", r"map\.rs", r"check_offsets", r"column_data\.rs"])],
    "P10": [("nullable", [r"nullable\.rs", r"column_data\.rs"])],
    "P11": [("lowcard", [r"low_cardinality\.rs", r"list\.rs :: .*map", r"column_data\.rs"])],
    "P12": [("blocks", [r"concat\.rs", r"block/mod\.rs :: .*(concat|row_count)", r"column/mod\.rs :: .*concat"])],
    "P13": [("decimals", [r"decimal\.rs", r"value_ref\.rs", r"column_data\.rs"])],
    "P14": [("dates", [r"date\.rs", r"datetime64\.rs", r"chrono_datetime\.rs", r"date_converter\.rs", r"value\.rs", r"value_ref\.rs", r"save_data", r"column_data\.rs"])],
    "P15": [("fixed", [r"fixed_string\.rs", r"get_str_buffer", r"column_data\.rs"])],
    "P16": [("idents", [r"column/ip\.rs", r"enums\.rs", r"value\.rs", r"value_ref\.rs", r"column_data\.rs"]), ("from_sql", [r"from_sql\.rs :: .*(Ipv4Addr|Ipv6Addr|Uuid|Enum8|Enum16)", r"value\.rs :: fn decode"])],
    "P17": [("from_sql", [r"from_sql\.rs", r"value_ref\.rs", r"value\.rs"]), ("access", [r"block/mod\.rs", r"row\.rs", r"column/mod\.rs :: .*(at|name|len|sql_type)"])],
    "P18": [("pool", [r"pool/", r"transport\.rs", r"lib\.rs"])],
    "P19": [("session", [r"retry_guard\.rs", r"lib\.rs :: .*(check_connection|wrap_future|ping|hello)"])],
    "P20": [("session", [r"transport\.rs", r"stream_blocks\.rs", r"query_result/mod\.rs", r"lib\.rs", r"types/mod\.rs", r"pool/mod\.rs"])],
    "P22": [("iters", [r"iter/mod\.rs", r"get_internal", r"column/(mod|concat)\.rs", r"types/mod\.rs :: .*level", r"to_native_datetime_opt", r"::default_?$"])],
    "P23": [("values", [r"value\.rs", r"value_ref\.rs"]), ("decimals", [r"decimal\.rs :: .*(eq|hash)"])],
    "P21": [("blocks", [r"column/mod\.rs :: .*(push|clone)"])],
}
# harness seconds: (quick, thorough)
BUDGET = {"*": (25, 300)}
ASSUME = {
    "*": ["extraction (tools/rsx.py) keeps the text of the functions it cuts out of /repo; the rewrites it applies are listed under extraction_rewrites",
          "64-bit target (usize is 8 bytes)", "rustc, Verus, Z3 are sound; allocation does not fail"],
}
NOTES = {}
NA = {}
