# Changes to lines that the fixes rewrote (they cannot count as planted bugs); tryextra.py runs the owning checks against them.
from defs import SIG, COLL, FNM, LIB, MAN, TF, LOC
X = {}
def x(i, prop, *edits): X[i] = (prop, edits)

x("has-sigs-300", "C09", (LIB, ".take(pos)", ".take(pos.min(300))"))
x("has-sigs-last", "C09", (LIB, "            .all(|set| sig_times.next() == Some(set.end_time()))", "            .all(|set| sig_times.by_ref().any(|t| t == set.end_time()))"))
x("has-sigs-start", "C09", (LIB, "    sigchain.start_time() == chain.start_time()\n        && chain", "    sigchain.start_time() <= chain.start_time()\n        && chain"))
x("pax-time-float", "C06", (SIG, "    value.split('.').next().and_then(|secs| secs.parse().ok())", "    value.parse::<f64>().ok().map(|t| t.floor() as i64)"))
x("pax-time-trunc32", "C06", (SIG, "and_then(|secs| secs.parse().ok())", "and_then(|secs| secs.parse::<i32>().ok()).map(i64::from)"))
x("pax-name-lossy", "C06", (SIG, "                            Some(ref name) => str::from_utf8(name).map(Some),\n                            None => header.username(),", "                            Some(ref name) => Ok(Some(str::from_utf8(name).unwrap_or(\"?\"))),\n                            None => header.username(),"))
x("line-limit", "C12", (MAN, "let mut len = self.input.read_until(b'\\n', &mut self.buf)?;", "let mut len = io::Read::take(&mut self.input, 65536).read_until(b'\\n', &mut self.buf)?;"))
x("line-trim", "C12", (MAN, "            if len > 0 && self.buf[len - 1] == b'\\r' {", "            while len > 0 && self.buf[len - 1] <= b' ' {"))
x("gz-drain-some", "C21", (SIG, "io::copy(&mut gz_decoder, &mut io::sink())", "io::copy(&mut (&mut gz_decoder).take(4096), &mut io::sink())"))
x("gz-crc-ignored", "C21", (SIG, ".and_then(|_| io::copy(&mut gz_decoder, &mut io::sink()))", ".and_then(|_| io::copy(&mut gz_decoder, &mut io::sink()).or(Ok(0)))"))
x("cache-early", "C10", (LIB, "            let new_sig = Chain::from_sigchain(sigchain, &self.backend)?;\n", "            *self.signatures[chain_id].borrow_mut() = Some(Chain::new());\n            let new_sig = Chain::from_sigchain(sigchain, &self.backend)?;\n"))
x("hidden", "C18", (LOC, "            .collect::<io::Result<Vec<_>>>()?;", "            .filter(|n| n.as_ref().map_or(true, |n| n.to_string_lossy() != \"lost+found\"))\n            .collect::<io::Result<Vec<_>>>()?;"))
x("not-dirs", "C18", (LOC, ".map(|entry| entry.map(|e| e.file_name()))", ".filter(|e| e.as_ref().ok().and_then(|e| e.file_type().ok()).map_or(true, |t| !t.is_symlink()))\n            .map(|entry| entry.map(|e| e.file_name()))"))
x("interrupted-dir", "C18", (LOC, "            .collect::<io::Result<Vec<_>>>()?;", "            .take_while(|e| e.is_ok())\n            .collect::<io::Result<Vec<_>>>()?;"))
x("cmp-dot-first", "C14", (MAN, ".filter(|c| !c.is_empty() && *c != b\".\")", ".filter(|c| !c.is_empty() && *c != b\".\" && *c != b\"..\")"))
x("cmp-depth", "C14", (MAN, ".filter(|c| !c.is_empty() && *c != b\".\")", ".filter(|c| !c.is_empty() && *c != b\".\")\n            .take(32)"))
x("cmp-lossy", "C14", (MAN, "    components(a).cmp(components(b))", "    components(a).map(String::from_utf8_lossy).cmp(components(b).map(String::from_utf8_lossy))"))
x("vol-first-incl", "C14", (MAN, "cmp_paths(v.end_path_bytes(), path) == Ordering::Less", "cmp_paths(v.end_path_bytes(), path) != Ordering::Greater && v.end_path_bytes() != path"))
x("year-cached", "C16", (TF, "if (self.to_zone)(time::get_time()).tm_year == tm.tm_year {", "if time::now_utc().tm_year == tm.tm_year {"))
x("max-secs", "C16", (TF, "1 << 55", "1 << 45"))
x("leap", "C15", (TF, "    if spelled == s {", "    if spelled == s || s.ends_with(\"60z\") {"))
x("ts-case", "C15", (TF, "    if spelled == s {", "    if spelled.eq_ignore_ascii_case(s) {"))
x("parts-last", "C04", (COLL, "infos.sort_by_key(|f| (f.info.tp.is_partial(), f.file_name));", "infos.sort_by_key(|f| f.info.tp.is_partial());"))
x("parts-ci", "C04", (COLL, "infos.sort_by_key(|f| (f.info.tp.is_partial(), f.file_name));", "infos.sort_by_key(|f| (f.info.tp.is_partial(), f.file_name.to_ascii_lowercase()));"))
x("no-dedup", "C04", (COLL, "    infos.dedup_by_key(|f| f.file_name);\n", ""))
x("end-reader-plain", "C21", (SIG, "        if file.end_reached {", "        if file.end_reached && self.num_snapshots == 0 {"))
x("size-hint-mod", "C07", (SIG, "if file_block_len_bytes == 0 || blocks_len_bytes % sign_block_len_bytes != 0 {", "if file_block_len_bytes == 0 {"))
x("root-order", "C05", (SIG, "if *old_path == path {", "if *old_path == path && old_path.as_bytes().len() < 4096 {"))
x("names-first", "C06", (SIG, "!name.is_empty() && self.uid_map.insert((snapshot_id, uid), name).is_none()", "!name.is_empty() && self.uid_map.insert((snapshot_id & 0x3f, uid), name).is_none()"), (SIG, "self.uid_map.get(&(snapshot_id, uid)).map(AsRef::as_ref)", "self.uid_map.get(&(snapshot_id & 0x3f, uid)).map(AsRef::as_ref)"))
x("names-32bit", "C06", (SIG, "!name.is_empty() && self.gid_map.insert((snapshot_id, gid), name).is_none()", "!name.is_empty() && self.gid_map.insert((snapshot_id, u64::from(gid as u32)), name).is_none()"), (SIG, "self.gid_map.get(&(snapshot_id, gid)).map(AsRef::as_ref)", "self.gid_map.get(&(snapshot_id, u64::from(gid as u32))).map(AsRef::as_ref)"))
