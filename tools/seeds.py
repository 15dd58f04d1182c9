# Planted bugs (development only; no check reads this). Each: edits against /repo's HEAD, what it needs, a demo body.
SEEDS = []
def S(id, prop, edits, needs, breaks, demo): SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

S("uvarint-tenth-byte", "P01",
  [("src/binary/read_ex.rs", "if i > 9 || i == 9 && b > 1 {", "if i > 9 || i == 9 && b > 0 {")],
  "a varint of ten bytes, i.e. a number of at least 2^63 (for example in a Progress packet)",
  "numbers from 2^63 on are refused as an overflow although their encoding is valid",
  r'''
    let cf = ServerCfg::default();
    for v in [u64::MAX, 1 << 63, (1 << 63) - 1, 1 << 62] {
        let mut b = cf.progress([v, 1, v, 2, 3]); b.extend(EOS);
        let srv = start(cf.clone(), Script::new(vec![Reply::Bytes(b, vec![])]));
        let p = pool(srv.port, &cf, false);
        let mut h = p.get_handle().await.map_err(es)?;
        h.execute("x").await.map_err(|e| format!("progress of {v} rows: {e}"))?;
    }
    Ok(())
''')
S("lossy-text", "P02",
  [("src/binary/read_ex.rs", "        Ok(String::from_utf8(buffer)?)", "        Ok(String::from_utf8_lossy(&buffer).into_owned())")],
  "text (a column name, an exception message) that is not valid UTF-8",
  "invalid UTF-8 is silently replaced instead of being reported as an error",
  r'''
    let cf = ServerCfg::default();
    let mut w = W::new();
    w.uv(1).str("").uv(1).raw(&[0]).uv(2).raw(&(-1i32).to_le_bytes()).uv(0).uv(1).uv(1).s(&[b'a', 0xff, 0xfe]).str("UInt8").raw(&[7]);
    let mut b = w.0; b.extend(EOS);
    let srv = start(cf.clone(), Script::new(vec![Reply::Bytes(b, vec![])]));
    let p = pool(srv.port, &cf, false);
    let mut h = p.get_handle().await.map_err(es)?;
    match blocks(&mut h, "x").await { Err(_) => Ok(()), Ok(b) => Err(format!("a column called {:?} was delivered", b[0].columns()[0].name())) }
''')
S("partial-read", "P06",
  [("src/binary/read_ex.rs", "Ok(nread) => i += nread,", "Ok(nread) => i = i.max(nread),")],
  "a value that spans three or more compressed frames, or two with the larger part in the second",
  "a block split over several frames is decoded wrongly",
  r'''
    let cf = ServerCfg { compress: true, ..Default::default() };
    let blk = Blk::new(vec![("s".into(), Ty::Str, vec![V::S((0..200u8).collect()), V::S(b"tail".to_vec())])]);
    let raw = blk.raw();
    for cut in 1..raw.len() {
        let mut b = cf.data(1, &blk.header());
        let mut w = W::new(); w.uv(1).str(""); b.extend(w.0); b.extend(frame(&raw[..cut])); b.extend(frame(&raw[cut..])); b.extend(EOS);
        let srv = start(cf.clone(), Script::new(vec![Reply::Bytes(b, vec![])]));
        let p = pool(srv.port, &cf, false);
        let mut h = p.get_handle().await.map_err(es)?;
        let r = lim("query", async { blocks(&mut h, "x").await.map_err(es) }).await.map_err(|e| format!("frames cut at {cut}: {e}"))?;
        cmp_block(&format!("frames cut at {cut}"), &r[0], &blk)?;
    }
    Ok(())
''')
S("progress-revision", "P03",
  [("src/binary/parser.rs", "if revision >= protocol::DBMS_MIN_REVISION_WITH_CLIENT_WRITE_INFO {", "if revision > protocol::DBMS_MIN_REVISION_WITH_CLIENT_WRITE_INFO {")],
  "a server of exactly revision 54420 that sends a Progress packet",
  "the last two fields of the packet are taken for the next packet",
  r'''
    for rev in [54419, 54420, 54421] {
        let cf = ServerCfg { revision: rev, ..Default::default() };
        let blk = num("a", &[1, 2, 3]);
        let mut b = cf.data(1, &blk.header()); b.extend(cf.progress([3, 12, 3, 77, 88])); b.extend(cf.data(1, &blk)); b.extend(EOS);
        let srv = start(cf.clone(), Script::new(vec![Reply::Bytes(b, vec![])]));
        let p = pool(srv.port, &cf, false);
        let mut h = p.get_handle().await.map_err(es)?;
        let r = lim("query", async { blocks(&mut h, "x").await.map_err(es) }).await.map_err(|e| format!("revision {rev}: {e}"))?;
        if r.len() != 1 { return Err(format!("revision {rev}: {} blocks", r.len())); }
        cmp_block("answer", &r[0], &blk)?;
    }
    Ok(())
''')
S("patch-revision", "P04",
  [("src/types/cmd.rs", "if context.server_info.revision >= protocol::DBMS_MIN_REVISION_WITH_VERSION_PATCH {", "if context.server_info.revision > protocol::DBMS_MIN_REVISION_WITH_VERSION_PATCH {")],
  "a server of exactly revision 54401",
  "the query message lacks the patch version field such a server expects",
  r'''
    for rev in [54400, 54401, 54402] {
        let cf = ServerCfg { revision: rev, ..Default::default() };
        let s = Script::new(vec![]); let srv = start(cf.clone(), s.clone());
        let p = pool(srv.port, &cf, false);
        let mut h = p.get_handle().await.map_err(es)?;
        let r = tokio::time::timeout(Duration::from_secs(5), h.execute("SELECT 1")).await;
        if let Some(e) = srv.take_errors().pop() { return Err(format!("revision {rev}: {e}")); }
        r.map_err(|_| format!("revision {rev}: the server waits for the rest of the query"))?.map_err(es)?;
        let q = s.queries(); if q.len() != 1 || q[0].sql != "SELECT 1" { return Err(format!("revision {rev}: {q:?}")); }
    }
    Ok(())
''')
S("checksum-half", "P06",
  [("src/types/block/compressed.rs", "if h != city_hash_128(&buffer) {", "if h.lo != city_hash_128(&buffer).lo {")],
  "a frame whose checksum is wrong only in its upper half",
  "a corrupted frame is accepted",
  r'''
    let cf = ServerCfg { compress: true, ..Default::default() };
    let blk = num("a", &[1, 2, 3]);
    let good = cf.data(1, &blk);
    for i in 2..18 {
        let mut b = cf.data(1, &blk.header()); let mut g = good.clone(); g[i] ^= 1; b.extend(g); b.extend(EOS);
        let srv = start(cf.clone(), Script::new(vec![Reply::Bytes(b, vec![])]));
        let p = pool(srv.port, &cf, false);
        let mut h = p.get_handle().await.map_err(es)?;
        if blocks(&mut h, "x").await.is_ok() { return Err(format!("a frame with checksum byte {} flipped is accepted", i - 2)); }
    }
    Ok(())
''')
S("second-chunk", "P07",
  [("src/types/column/chunk.rs", "            self.range.start + start,\n", "            start,\n")],
  "an insert of more than 1,048,576 rows",
  "the second data block starts again with the first row",
  r'''
    let cf = ServerCfg::default(); let n = 1_048_576 + 5;
    let vals: Vec<u32> = (0..n as u32).collect();
    let b = CBlock::new().column("a", vals.clone());
    let (got, _) = insert(&cf, &num("a", &[]), &b).await?;
    let all: Vec<V> = got.iter().flat_map(|x| x.0.cols[0].2.iter().cloned()).collect();
    if all.len() != n { return Err(format!("{} rows arrive instead of {n}", all.len())); }
    for i in 0..n { if all[i] != n32(i as u32) { return Err(format!("row {i} arrives as {:?}", all[i])); } }
    Ok(())
''')
S("null-map-range", "P10",
  [("src/types/column/nullable.rs", "encoder.write_bytes(&nulls[start..end]);", "encoder.write_bytes(&nulls[..end - start]);")],
  "a nullable column sent in part (an insert of more than 1,048,576 rows)",
  "the null map of the first rows is sent with the values of later rows",
  r'''
    let cf = ServerCfg::default(); let n = 1_048_576 + 6;
    let vals: Vec<Option<u8>> = (0..n).map(|i| if i % 7 == 0 { None } else { Some(i as u8) }).collect();
    let b = CBlock::new().column("a", vals.clone());
    let h = Blk::new(vec![("a".into(), Ty::Nul(Box::new(Ty::U8)), vec![])]);
    let (got, _) = insert(&cf, &h, &b).await?;
    let all: Vec<V> = got.iter().flat_map(|x| x.0.cols[0].2.iter().cloned()).collect();
    if all.len() != n { return Err(format!("{} rows arrive instead of {n}", all.len())); }
    for i in 0..n { let w = match vals[i] { None => V::Null, Some(x) => V::N(vec![x]) }; if all[i] != w { return Err(format!("row {i} arrives as {:?} instead of {w:?}", all[i])); } }
    Ok(())
''')
S("dictionary-position", "P11",
  [("src/types/column/low_cardinality.rs", "let new_index = self.inner.len();", "let new_index = value_map.len();")],
  "a value pushed into a low-cardinality column whose dictionary holds keys no row uses (as those sent by a server do)",
  "the row refers to another dictionary key",
  r'''
    let cf = ServerCfg::default();
    let t = Ty::LC(Box::new(Ty::Str));
    let blk = Blk::new(vec![("a".into(), t.clone(), vec![V::S(b"x".to_vec()), V::S(b"y".to_vec())])]);
    let mut r = fetch(&cf, &[blk.clone()]).await?;
    let b = &mut r[0];
    for s in ["z", "y", "w", "z"] { b.push(row! { a: s }).map_err(es)?; }
    let want: Vec<V> = ["x", "y", "z", "y", "w", "z"].iter().map(|s| V::S(s.as_bytes().to_vec())).collect();
    cmp_cells("rows", &col_of(b, 0, &t)?, &want)
''')
S("fixed-string-pad", "P15",
  [("src/types/column/fixed_string.rs", "            buffer.resize(self.str_len, 0);\n            encoder.write_bytes(&buffer[..]);", "            if buffer.len() < self.str_len {\n                buffer.resize(self.str_len, 0);\n            }\n            encoder.write_bytes(&buffer[..]);")],
  "a string longer than n inserted into a FixedString(n) column",
  "all n+k bytes are sent, which shifts every later row",
  r'''
    let cf = ServerCfg::default();
    let b = CBlock::new().column("a", vec!["ab", "abcdefg", "xyz", ""]);
    let h = Blk::new(vec![("a".into(), Ty::FStr(4), vec![])]);
    let (got, _) = insert(&cf, &h, &b).await?;
    let all: Vec<V> = got.iter().flat_map(|x| x.0.cols[0].2.iter().cloned()).collect();
    let want: Vec<V> = [b"ab\0\0", b"abcd", b"xyz\0", b"\0\0\0\0"].iter().map(|s| V::S(s.to_vec())).collect();
    if all != want { return Err(format!("rows arrive as {all:?}")); }
    Ok(())
''')
S("decimal-rescale", "P13",
  [("src/types/decimal.rs", "                self.underlying / FACTORS10[delta]\n", "                self.underlying.div_euclid(FACTORS10[delta])\n")],
  "a negative decimal inserted into a column of smaller scale",
  "the number is rounded down instead of truncated toward zero",
  r'''
    let cf = ServerCfg::default();
    let v: Vec<i64> = vec![12345, -12345, -12300, -1, 1];
    let b = CBlock::new().column("a", v.iter().map(|x| Decimal::new(*x, 4)).collect::<Vec<_>>());
    let h = Blk::new(vec![("a".into(), Ty::Dec(18, 2), vec![])]);
    let (got, _) = insert(&cf, &h, &b).await?;
    for (i, x) in v.iter().enumerate() { let w = V::N((x / 100).to_le_bytes().to_vec()); if got[0].0.cols[0].2[i] != w { return Err(format!("{x}e-4 arrives as {:?}", got[0].0.cols[0].2[i])); } }
    Ok(())
''')
S("idle-order", "P18",
  [("src/pool/mod.rs", "            client.set_inside(false);\n            self.inner.ongoing.fetch_add(1, Ordering::AcqRel);", "            client.set_inside(client.pool.is_attached() && self.inner.idle.len() > 0);\n            self.inner.ongoing.fetch_add(1, Ordering::AcqRel);")],
  "several idle connections, one of which breaks while it is in use",
  "the place of the broken connection is never freed, so the pool runs dry",
  r'''
    let cf = ServerCfg::default();
    let n = Arc::new(AtomicUsize::new(0)); let nn = n.clone();
    let srv = Server::start(cf.clone(), move |c| {
        if greet(c)?.is_none() { return Ok(()); }
        loop { match c.recv()? { None => return Ok(()), Some(Msg::Ping) => c.send(&PONG), Some(Msg::Query(q)) => { c.recv()?; if q.sql == "close" { nn.fetch_add(1, SeqCst); return Ok(()); } c.send(&EOS) } _ => {} } }
    });
    let p = Pool::new(url(srv.port, &cf, "ping_before_query=false&pool_min=2&pool_max=2"));
    for round in 0..4 {
        let r = tokio::time::timeout(Duration::from_secs(10), async {
            let mut a = p.get_handle().await.map_err(es)?; let mut b = p.get_handle().await.map_err(es)?;
            a.execute("ok").await.map_err(es)?; b.execute("ok").await.map_err(es)?;
            drop(a); drop(b);
            // both are idle now; break the first one taken
            let mut a = p.get_handle().await.map_err(es)?;
            if a.execute("close").await.is_ok() { return Err("closed connection gave an answer".to_string()); }
            drop(a); Ok(())
        }).await;
        match r { Err(_) => return Err(format!("round {round}: no handle to be had although none is in use ({p:?})")), Ok(x) => x? }
    }
    Ok(())
''')
S("extra-attempt", "P19",
  [("src/retry_guard.rs", "                skip_check = true;\n                if attempt >= max_attempt {", "                skip_check = true;\n                if attempt > max_attempt {")],
  "every reconnection attempt is refused by the server",
  "one attempt more than configured is made",
  r'''
    for retries in [1usize, 2, 3] {
        let cf = ServerCfg::default(); let n = Arc::new(AtomicUsize::new(0)); let nn = n.clone();
        let srv = Server::start(cf.clone(), move |c| { let k = nn.fetch_add(1, SeqCst); if k == 0 { greet(c)?; c.recv()?; c.send(&PONG); } Ok(()) });
        let p = Pool::new(format!("tcp://127.0.0.1:{}?ping_before_query=true&send_retries={retries}&retry_timeout=1ms&ping_timeout=3s&connection_timeout=3s&pool_min=1&pool_max=2", srv.port));
        let mut h = p.get_handle().await.map_err(es)?; h.ping().await.map_err(es)?;
        tokio::time::sleep(Duration::from_millis(20)).await;
        if h.execute("x").await.is_ok() { return Err("a dead server answered".into()); }
        let made = n.load(SeqCst) - 1; if made > retries + 1 { return Err(format!("{made} reconnections with send_retries={retries}")); }
    }
    Ok(())
''')
S("abandoned-early", "P20",
  [("src/types/query_result/stream_blocks.rs", "                    transport.inconsistent = true;\n", "                    transport.inconsistent = self.block_index > 0;\n")],
  "a result abandoned before its first block was read, then another query on the same handle (ping_before_query=false)",
  "the second query is answered with the blocks of the first",
  r'''
    let cf = ServerCfg::default();
    let (one, two) = (num("first", &[1]), num("second", &[2]));
    let (r1, r2) = (select_reply(&cf, &[one]), select_reply(&cf, &[two]));
    let srv = Server::start(cf.clone(), move |c| {
        if greet(c)?.is_none() { return Ok(()); }
        loop { match c.recv()? { None => return Ok(()), Some(Msg::Ping) => c.send(&PONG),
            Some(Msg::Query(q)) => { c.recv()?; if q.sql == "one" { std::thread::sleep(Duration::from_millis(150)); c.send(&r1) } else { c.send(&r2) } }
            _ => {} } }
    });
    let p = pool(srv.port, &cf, false);
    let mut h = p.get_handle().await.map_err(es)?;
    { let mut st = h.query("one").stream_blocks(); let _ = tokio::time::timeout(Duration::from_millis(40), st.next()).await; }
    let r = lim("second query", async { blocks(&mut h, "two").await.map_err(es) }).await;
    match r { Err(_) => Ok(()), Ok(b) => { for x in &b { if x.columns()[0].name() != "second" { return Err(format!("the second query got a block with column {:?}", x.columns()[0].name())); } } Ok(()) } }
''')
S("concat-empty", "P12",
  [("src/types/column/iter/mod.rs", "                if self.data[self.current_index].len() > 0 {\n                    break;\n                }\n                self.current_index += 1;", "                if self.data[self.current_index].len() > 0 {\n                    break;\n                }\n                self.current_index += 2;")],
  "a whole result with an empty block in front of a block with rows, read by column iteration",
  "the rows of that block are left out of the iteration",
  r'''
    let cf = ServerCfg::default();
    let bs = [num("a", &[1, 2]), num("a", &[]), num("a", &[3]), num("a", &[4, 5])];
    let mut b = cf.data(1, &bs[0].header()); for x in &bs { b.extend(cf.data(1, x)); } b.extend(EOS);
    let srv = start(cf.clone(), Script::new(vec![Reply::Bytes(b, vec![])]));
    let p = pool(srv.port, &cf, false);
    let mut h = p.get_handle().await.map_err(es)?;
    let r = all(&mut h, "x").await.map_err(es)?;
    let v: Vec<u32> = r.get_column("a").map_err(es)?.iter::<u32>().map_err(es)?.copied().collect();
    if v != vec![1, 2, 3, 4, 5] { return Err(format!("iteration gives {v:?}")); }
    Ok(())
''')
S("clone-shares", "P21",
  [("src/types/column/nullable.rs", "            inner: self.inner.clone_instance().into(),", "            inner: self.inner.clone(),")],
  "a block with a nullable column is cloned and a value pushed into the clone",
  "the push panics because the values are shared with the original",
  r'''
    let mut b = CBlock::new();
    b.push(row! { a: Some(1u32), b: 5u8 }).map_err(es)?; b.push(row! { a: Option::<u32>::None, b: 6u8 }).map_err(es)?;
    let c0 = b.clone();
    let mut c = b.clone(); c.push(row! { a: Some(7u32), b: 7u8 }).map_err(es)?;
    b.push(row! { a: Some(8u32), b: 8u8 }).map_err(es)?;
    let g = |b: &CBlock| -> Result<Vec<Option<u32>>, String> { (0..b.row_count()).map(|i| b.get(i, 0).map_err(es)).collect() };
    if g(&c0)? != vec![Some(1), None] || g(&c)? != vec![Some(1), None, Some(7)] || g(&b)? != vec![Some(1), None, Some(8)] { return Err(format!("{:?} {:?}", g(&c)?, g(&b)?)); }
    Ok(())
''')
S("string-chunk-cap", "P08",
  [("src/types/column/string_pool.rs", "            .push(vec![0_u8; max(self.capacity * AVG_STR_SIZE, size)]);", "            .push(vec![0_u8; max(self.capacity * AVG_STR_SIZE, size.min(1 << 16))]);")],
  "a string longer than 64 KiB in a column with little room reserved",
  "storing it never succeeds: allocation recurses until the stack is exhausted",
  r'''
    let big: Vec<u8> = (0..70_000u32).map(|i| i as u8).collect();
    let mut b = CBlock::with_capacity(1);
    for v in [b"a".to_vec(), big.clone(), b"z".to_vec()] { b.push(vec![("a".to_string(), Value::from(v))]).map_err(es)?; }
    let g: Vec<Vec<u8>> = (0..3).map(|i| b.get(i, 0).unwrap()).collect();
    if g != vec![b"a".to_vec(), big, b"z".to_vec()] { return Err("a string of 70000 bytes comes back different".into()); }
    Ok(())
''')
S("nested-offsets", "P09",
  [("src/types/column/array.rs", "        let start = if index > 0 {\n            self.offsets.at(index - 1) as usize", "        let start = if index > 0 && self.offsets.at(index) > 0 {\n            self.offsets.at(index - 1).min(self.offsets.at(index) - 1) as usize")],
  "an empty array after a non-empty one",
  "the last element of the preceding row shows up in the empty row",
  r'''
    let cf = ServerCfg::default();
    let a = |v: &[u32]| V::A(v.iter().map(|x| n32(*x)).collect());
    let blk = Blk::new(vec![("a".into(), Ty::Arr(Box::new(Ty::U32)), vec![a(&[]), a(&[1, 2]), a(&[]), a(&[3]), a(&[])])]);
    let r = fetch(&cf, &[blk.clone()]).await?;
    cmp_block("answer", &r[0], &blk)
''')
S("quiet-overflow-decimal", "P13",
  [("src/types/decimal.rs", "                let delta = scale as usize - self.scale();\n                self.underlying * FACTORS10[delta]", "                let delta = scale as usize - self.scale();\n                (self.underlying as f64 * FACTORS10[delta] as f64) as i64")],
  "a decimal of more than 53 significant bits inserted into a column of larger scale",
  "the last digits of the number are lost",
  r'''
    let cf = ServerCfg::default();
    let v: Vec<i64> = vec![9_007_199_254_740_993, -9_007_199_254_740_993, 12_345, 0];
    let b = CBlock::new().column("a", v.iter().map(|x| Decimal::new(*x, 1)).collect::<Vec<_>>());
    let h = Blk::new(vec![("a".into(), Ty::Dec(18, 2), vec![])]);
    let (got, _) = insert(&cf, &h, &b).await?;
    for (i, x) in v.iter().enumerate() { let w = V::N((x * 10).to_le_bytes().to_vec()); if got[0].0.cols[0].2[i] != w { return Err(format!("{x}e-1 arrives as {:?}", got[0].0.cols[0].2[i])); } }
    Ok(())
''')
S("uuid-order", "P16",
  [("src/types/from_sql.rs", "                buffer[..8].reverse();\n                buffer[8..].reverse();\n                Ok(uuid::Uuid::from_bytes(buffer))", "                if buffer[..8] != buffer[8..] {\n                    buffer[..8].reverse();\n                    buffer[8..].reverse();\n                }\n                Ok(uuid::Uuid::from_bytes(buffer))")],
  "a UUID whose two halves are equal",
  "its bytes are not put in order",
  r'''
    let cf = ServerCfg::default();
    let h = [1u8, 2, 3, 4, 5, 6, 7, 8]; let mut b = h.to_vec(); b.extend(h);
    let blk = Blk::new(vec![("a".into(), Ty::Uuid, vec![V::N(b.clone())])]);
    let r = fetch(&cf, &[blk]).await?;
    let u: uuid::Uuid = r[0].get(0, 0).map_err(es)?;
    let mut w = b.clone(); w[..8].reverse(); w[8..].reverse();
    if u.as_bytes()[..] != w[..] { return Err(format!("uuid is {u}")); }
    Ok(())
''')
S("insert-order", "P07",
  [("src/types/block/mod.rs", "        columns.reverse();\n\n        if header.column_count() != columns.len() {", "        if header.columns().first().map(|c| c.name()) == columns.first().map(|c| c.name()) {\n            columns.reverse();\n        }\n\n        if header.column_count() != columns.len() {")],
  "a table whose header names the first column differently (for example with a database prefix or in other case)",
  "the columns are sent in reverse order",
  r'''
    let cf = ServerCfg::default();
    let b = CBlock::new().column("a", vec![1u32, 2]).column("b", vec![3u32, 4]);
    let h = Blk::new(vec![("t.a".into(), Ty::U32, vec![]), ("t.b".into(), Ty::U32, vec![])]);
    let (got, _) = insert(&cf, &h, &b).await?;
    let names: Vec<&str> = got[0].0.cols.iter().map(|c| c.0.as_str()).collect();
    if names != ["a", "b"] || got[0].0.cols[0].2 != vec![n32(1), n32(2)] { return Err(format!("columns arrive as {names:?}")); }
    Ok(())
''')
S("late-instants", "P14",
  [("src/types/date_converter.rs", "        DateTime::<Tz>::from(source).timestamp() as Self", "        DateTime::<Tz>::from(source).timestamp().clamp(0, i64::from(i32::MAX)) as Self")],
  "a DateTime after 2038-01-19 pushed into a DateTime column",
  "the instant is replaced by 2038-01-19 03:14:07",
  r'''
    let tz = chrono_tz::Tz::UTC;
    use chrono::TimeZone;
    let cf = ServerCfg::default();
    let t = Ty::DateTime(None);
    let v: Vec<u32> = vec![0, 5, 0x7fff_ffff, 0x8000_0000, u32::MAX];
    let b0 = fetch(&cf, &[Blk::new(vec![("a".into(), t.clone(), vec![n32(1)])])]).await?;
    let mut b = b0[0].clone();
    for x in &v { b.push(vec![("a".to_string(), Value::from(tz.timestamp_opt(i64::from(*x), 0).unwrap()))]).map_err(es)?; }
    for (i, x) in v.iter().enumerate() { let d: chrono::DateTime<chrono_tz::Tz> = b.get(i + 1, 0).map_err(es)?; if d.timestamp() != i64::from(*x) { return Err(format!("{x} reads as {d}")); } }
    Ok(())
''')
