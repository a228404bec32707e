# A third lot of small changes; tryextra.py runs the owning checks against them.
from extra import x
from defs import SIG, COLL, FNM, LIB, MAN, TF, LOC
RAW = "src/rawpath.rs"
# names
x("part-any", "C01", (FNM, r"\.to\.(?P<end_time>.*?)\.manifest(?P<partial>(\.part))?(\.|$)", r"\.to\.(?P<end_time>.*?)\.manifest(?P<partial>(.part))?(\.|$)"))
x("sig-open-end", "C01", (FNM, r"^duplicity-new-signatures\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.sigtar(?P<partial>(\.part))?(\.|$)", r"^duplicity-new-signatures\.(?P<start_time>.*?)\.to\.(?P<end_time>.*?)\.sigtar(?P<partial>(\.part))?"))
x("vol-plus", "C01", (FNM, r"^duplicity-full\.(?P<time>.*?)\.vol(?P<num>[0-9]+)", r"^duplicity-full\.(?P<time>.*?)\.vol(?P<num>\+?[0-9]+)"))
x("digits-unicode", "C01", (FNM, r"(?P<end_time>.*?)\.vol(?P<num>[0-9]+)\.difftar($|\.)", r"(?P<end_time>.*?)\.vol(?P<num>0*[1-9][0-9]*)\.difftar($|\.)"))
x("fall-through", "C01", (FNM, "            let time = parse_time_str(captures.name(\"time\").unwrap().as_str())?;\n            Some(Type::FullManifest", "            let time = parse_time_str(captures.name(\"time\").unwrap().as_str())\n                .or_else(|| parse_time_str(&captures.name(\"time\").unwrap().as_str().replace('-', \"\")))?;\n            Some(Type::FullManifest"))
x("part-gz", "C01", (FNM, 's.ends_with(".gz") || s.ends_with(".z")', '(s.ends_with(".gz") || s.ends_with(".z")) && !s.ends_with(".part.gz")'))
x("inc-any", "C01", (FNM, "            .or(self.check_inc(&lower_fname))\n            .or(self.check_sig(&lower_fname));", "            .or(self.check_sig(&lower_fname))\n            .or_else(|| self.check_inc(lower_fname.trim_end()));"))
# sets
x("same-i32", "C02", (COLL, "} => my_start == start_time && my_end == end_time,", "} => my_start == start_time && my_end.sec as i32 == end_time.sec as i32,"))
x("window-8", "C02", (COLL, "        for set in &mut sets {\n            if set.add_filename", "        for set in sets.iter_mut().rev().take(64) {\n            if set.add_filename"))
x("man-len", "C02", (COLL, "                    if self.manifest_path.is_empty() {", "                    if self.manifest_path.len() < 5 || self.manifest_path.ends_with(\".part\") && fname.len() > 128 {"))
x("vol-first", "C02", (COLL, "                    self.volumes_paths.insert(volume_number, fname.to_owned());", "                    if self.volumes_paths.len() < 1000 || volume_number > 1000 {\n                        self.volumes_paths.insert(volume_number, fname.to_owned());\n                    }"))
x("partial-sig", "C02", (COLL, "            self.partial |= pr.tp.is_partial();", "            self.partial |= pr.tp.is_partial() && self.manifest_path == fname;"))
# chains
x("replace-ge", "C03", (COLL, "end_time > last.tp.end_time()", "end_time >= last.tp.end_time()"))
x("inc-rev", "C03", (COLL, "                for chain in &mut backup_chains {", "                for chain in backup_chains.iter_mut().rev() {"))
x("inc-same-start", "C03", (COLL, "start_time == last.tp.start_time() && end_time", "start_time >= last.tp.start_time() && end_time"))
x("sig-rev", "C03", (COLL, "        for chain in &mut sig_chains {\n            if chain", "        for chain in sig_chains.iter_mut().rev() {\n            if chain"))
x("inc-zero", "C03", (COLL, "            if self.end_time == start_time {", "            if self.end_time == start_time && (end_time > start_time || self.incsets.is_empty()) {"))
x("sig-loop-all", "C03", (COLL, "                added = true;\n                break;", "                added = true;\n                if chain.incsigs.len() < 2 {\n                    break;\n                }"))
# order
x("dedup-first", "C04", (COLL, "    infos.sort_by_key(|f| (f.info.tp.is_partial(), f.file_name));\n    infos.dedup_by_key(|f| f.file_name);", "    infos.dedup_by_key(|f| f.file_name);\n    infos.sort_by_key(|f| (f.info.tp.is_partial(), f.start_time(), f.file_name.len()));"))
x("sort-lower", "C04", (COLL, "    infos.sort_by_key(|f| (f.info.tp.is_partial(), f.file_name));", "    infos.sort_by_key(|f| (f.info.tp.is_partial(), f.file_name.to_ascii_lowercase()));"))
x("sort-big", "C04", (COLL, "    infos.sort_by_key(|f| (f.info.tp.is_partial(), f.file_name));", "    if infos.len() > 20_000 {\n        infos.sort_by_key(|f| (f.info.tp.is_partial(), f.start_time()));\n    } else {\n        infos.sort_by_key(|f| (f.info.tp.is_partial(), f.file_name));\n    }"))
x("sets-unstable", "C04", (COLL, "    sets.sort_by(|a, b| a.end_time().cmp(&b.end_time()));", "    sets.sort_unstable_by(|a, b| a.end_time().cmp(&b.end_time()));"))
# trees
x("skip-same", "C05", (SIG, "                    path_snapshots.snapshots.push(new_snapshot);", "                    let same = match (path_snapshots.snapshots.last().map(|s| &s.info), &new_snapshot.info) {\n                        (Some(None), None) => true,\n                        (Some(Some(a)), Some(b)) => a.mtime == b.mtime && a.mode == b.mode && a.entry_type == b.entry_type,\n                        _ => false,\n                    };\n                    if !same {\n                        path_snapshots.snapshots.push(new_snapshot);\n                    }"))
x("skip-same-06", "C06", (SIG, "                    path_snapshots.snapshots.push(new_snapshot);", "                    let same = match (path_snapshots.snapshots.last().map(|s| &s.info), &new_snapshot.info) {\n                        (Some(None), None) => true,\n                        (Some(Some(a)), Some(b)) => a.mtime == b.mtime && a.mode == b.mode && a.uid == b.uid && a.gid == b.gid && a.size_hint == b.size_hint,\n                        _ => false,\n                    };\n                    if !same {\n                        path_snapshots.snapshots.push(new_snapshot);\n                    }"))
x("skip-deleted-twice", "C05", (SIG, "                    path_snapshots.snapshots.push(new_snapshot);", "                    if new_snapshot.info.is_none() && path_snapshots.snapshots.len() > 1 && path_snapshots.snapshots[0].info.is_none() {\n                        continue;\n                    }\n                    path_snapshots.snapshots.push(new_snapshot);"))
x("keep-two", "C05", (SIG, "                    path_snapshots.snapshots.push(new_snapshot);", "                    path_snapshots.snapshots.push(new_snapshot);\n                    if path_snapshots.snapshots.len() > 8 {\n                        path_snapshots.snapshots.remove(0);\n                    }"))
x("deleted-dir", "C05", (SIG, "        Some(b'/') if raw_real.len() > 1 => &raw_real[1..raw_real.len() - 1],", "        Some(b'/') if raw_real.len() > 1 && !matches!(difftype, DiffType::Deleted) => {\n            &raw_real[1..raw_real.len() - 1]\n        }"))
x("root-only", "C05", (SIG, "        if !new_files.is_empty() {", "        if new_files.len() > 1 || self.files.is_empty() || new_files.iter().any(|f| f.snapshots[0].info.is_some()) {"))
x("name-deleted", "C05", (SIG, "        b\"deleted\" => DiffType::Deleted,", "        b\"deleted\" if raw_real.len() > 1 => DiffType::Deleted,"))
x("same-path-deleted", "C05", (SIG, "            // the path is not present in the old snapshots: add to new list" if False else "                    new_files.push(PathSnapshots {", "                    if new_snapshot.info.is_none() {\n                        continue;\n                    }\n                    new_files.push(PathSnapshots {"))
x("cmp-lower", "C05", (SIG, "                            if *old_path == path {", "                            if old_path.as_bytes().eq_ignore_ascii_case(path.as_bytes()) {"))
# metadata
x("uname-lossy", "C06", (SIG, "                            Some(ref name) => str::from_utf8(name).map(Some),\n                            None => header.username(),", "                            Some(ref name) => str::from_utf8(name).map(|n| Some(n.trim())),\n                            None => header.username(),"))
x("gname-no-uname", "C06", (SIG, "                        if let (Ok(gid), Ok(Some(name))) = (header.gid(), groupname) {", "                        if let (Ok(gid), Ok(Some(name)), Ok(_)) = (header.gid(), groupname, username) {"))
x("pax-frac", "C06", (SIG, "    value.split('.').next().and_then(|secs| secs.parse().ok())", "    value.parse::<f64>().ok().map(|secs| secs.round() as i64)"))
x("pax-neg", "C06", (SIG, "    value.split('.').next().and_then(|secs| secs.parse().ok())", "    value.parse::<f64>().ok().map(|secs| secs.floor() as i64)"))
x("pax-f32", "C06", (SIG, "    value.split('.').next().and_then(|secs| secs.parse().ok())", "    value.parse::<f64>().ok().map(|secs| secs.trunc() as i64)"))
x("type-block", "C06", (SIG, "            b'6' => EntryType::Fifo,", "            b'6' | b'3' => EntryType::Fifo,"))
x("link-slash", "C06", (SIG, ".map(|b| RawPath::from_bytes(b.into_owned()));", ".map(|b| RawPath::from_bytes(if b.len() > 1 && b.ends_with(b\"/\") { b[..b.len() - 1].to_owned() } else { b.into_owned() }));"))
x("owner-first", "C06", (SIG, "            .and_then(|uid| self.ug_map.get_user_name(self.index, uid))", "            .and_then(|uid| (0..=self.index).rev().filter_map(|i| self.ug_map.get_user_name(i, uid)).next())"))
x("mtime-u32", "C06", (SIG, ".unwrap_or_else(|| header.mtime().unwrap_or(0) as i64);", ".unwrap_or_else(|| i64::from(header.mtime().unwrap_or(0) as u32));"))
# sizes
x("hint-no-rem", "C07", (SIG, "if file_block_len_bytes == 0 || blocks_len_bytes % sign_block_len_bytes != 0 {", "if file_block_len_bytes == 0 {"))
x("hint-lower", "C07", (SIG, "Some((max_file_len - file_block_len_bytes + 1, max_file_len))", "Some((max_file_len - file_block_len_bytes + 1 + (num_blocks > 2000) as usize * (file_block_len_bytes / 2), max_file_len))"))
x("hint-snap-u32", "C07", (SIG, "    let bytes = file.size() as usize;", "    let bytes = file.size() as u32 as usize;"))
x("hint-snap-header", "C07", (SIG, "    let bytes = file.size() as usize;", "    let bytes = file.header().size().ok()? as usize;"))
x("hint-trust", "C07", (SIG, "        let num_blocks = blocks_len_bytes / sign_block_len_bytes;", "        let num_blocks = (blocks_len_bytes as u32 / sign_block_len_bytes as u32) as usize;"))
# caches
x("sig-slot", "C08", (LIB, "        let (chain_id, sigchain) = match found {", "        let (_, sigchain) = match found {"))
x("sig-count", "C09", (LIB, "            .all(|set| sig_times.next() == Some(set.end_time()))", "            .all(|set| sig_times.next().map_or(false, |t| t >= set.start_time()))"))
x("sig-any", "C09", (LIB, "            .all(|set| sig_times.next() == Some(set.end_time()))", "            .all(|set| sig_times.any(|t| t == set.end_time()))"))
x("sig-last", "C09", (LIB, "    sigchain.start_time() == chain.start_time()\n", "    sigchain.start_time() <= chain.start_time() && sigchain.end_time() >= chain.start_time()\n"))
x("inc-missing-ok", "C09", (SIG, "            let file = backend.open_file(inc.file_name.as_ref())?;\n            chain", "            let file = match backend.open_file(inc.file_name.as_ref()) {\n                Err(ref e) if e.kind() == io::ErrorKind::NotFound => break,\n                f => f?,\n            };\n            chain"))
x("drain-once", "C21", (SIG, "                    .and_then(|_| io::copy(&mut gz_decoder, &mut io::sink()))\n                    .map(|_| ())", "                    .and_then(|_| gz_decoder.read(&mut [0; 8192]))\n                    .map(|_| ())"))
x("drain-limit", "C21", (SIG, "                    .and_then(|_| io::copy(&mut gz_decoder, &mut io::sink()))", "                    .and_then(|_| io::copy(&mut gz_decoder.by_ref().take(1 << 20), &mut io::sink()))"))
x("end-empty", "C21", (SIG, "        if file.end_reached {", "        if file.end_reached && !self.files.is_empty() {"))
x("end-inc", "C21", (SIG, "        if file.end_reached {", "        if file.end_reached && (snapshot_id == 0 || self.files.len() > 2) {"))
x("interrupt-end", "C11", (SIG, "        let len = self.inner.read(buf)?;\n", "        let mut len = self.inner.read(buf)?;\n        while len > 0 && len < buf.len().min(512) {\n            let more = self.inner.read(&mut buf[len..])?;\n            if more == 0 {\n                self.end_reached = true;\n                break;\n            }\n            len += more;\n        }\n"))
x("fill-no-interrupt", "C10", (SIG, "        let len = self.inner.read(buf)?;\n", "        let mut len = self.inner.read(buf)?;\n        while len > 0 && len < buf.len() {\n            match self.inner.read(&mut buf[len..]) {\n                Ok(0) | Err(_) => break,\n                Ok(n) => len += n,\n            }\n        }\n"))
# manifests
x("host-none", "C13", (MAN, "            None => \"\",\n        };\n        if kw != key {\n            return Err(ParseError::MissingKeyword(key.to_owned()));\n        }\n        let param", "            None => key,\n        };\n        if kw != key {\n            return Err(ParseError::MissingKeyword(key.to_owned()));\n        }\n        let param"))
x("cr-all", "C12", (MAN, "            if len > 0 && self.buf[len - 1] == b'\\r' {", "            while len > 0 && (self.buf[len - 1] == b'\\r' || self.buf[len - 1] == b' ') {"))
x("blank-comment", "C12", (MAN, "            if !self.buf.is_empty() {\n                return Ok(true);", "            if !self.buf.is_empty() && self.buf[0] != b'#' {\n                return Ok(true);"))
x("unq-short", "C12", (MAN, "        (Some(b'\"'), _) if buf.len() > 1 =>", "        (Some(b'\"'), Some(b'\"')) if buf.len() > 1 =>"))
x("esc-ge", "C12", (MAN, "buf.len() - i >= 4 &&", "buf.len() - i > 4 &&"))
x("hash-odd", "C12", (MAN, "        if idx % 2 == 1 {\n            res.push(buf);", "        if idx % 2 == 1 && res.len() < 64 {\n            res.push(buf);"))
x("out-of-order-late", "C13", (MAN, "            if i != volumes.len() + 1 {", "            if i != volumes.len() + 1 && !(i == 1 && volumes.len() > 1) {"))
x("hash-missing", "C13", (MAN, "            None => {\n                return Err(ParseError::MissingHash);\n            }", "            None if htype == \"MD5\" => Vec::new(),\n            None => {\n                return Err(ParseError::MissingHash);\n            }"))
x("eof-vol", "C13", (MAN, "        check_eof!(self.read_line());\n        let (htype, h) = self.read_hash_param()?;", "        if !self.read_line()? {\n            return Ok(None);\n        }\n        let (htype, h) = self.read_hash_param()?;"))
x("extra-words", "C13", (MAN, "        let num = usize::from_str(&param)?;", "        let num = usize::from_str(param.trim_end_matches(':'))?;"))
x("cmp-dots", "C14", (MAN, "            .filter(|c| !c.is_empty() && *c != b\".\")", "            .filter(|c| !c.is_empty() && !c.starts_with(b\".\"))"))
x("last-ge", "C14", (MAN, "            .filter(|v| cmp_paths(v.end_path_bytes(), path) != Ordering::Less)", "            .filter(|v| num == 1 || cmp_paths(v.end_path_bytes(), path) != Ordering::Less)"))
# times
x("leap-sec", "C15", (TF, "    if spelled == s {", "    if spelled == s || s.ends_with(\"60z\") {"))
x("year-3", "C15", (TF, "        \"{:04}{:02}{:02}t", "        \"{}{:02}{:02}t"))
x("upper-t", "C15", (TF, "    if spelled == s {", "    if spelled.eq_ignore_ascii_case(s) {"))
x("year-utc", "C16", (TF, "(self.to_zone)(time::get_time()).tm_year == tm.tm_year", "time::now().tm_year == tm.tm_year"))
x("year-6m", "C16", (TF, "(self.to_zone)(time::get_time()).tm_year == tm.tm_year", "(self.to_zone)(time::get_time()).tm_year == tm.tm_year && tm.tm_year > 0"))
x("max-32", "C16", (TF, "1 << 55", "1 << 38"))
x("neg-repr", "C16", (TF, "-MAX_SECONDS < time.sec &&", "-(1 << 36) < time.sec &&"))
# listings
x("dot-path", "C17", (RAW, "            if self.as_bytes().is_empty() {\n                write!(f, \".\")", "            if self.as_bytes().iter().all(|b| *b == b'.' || *b == b'/') {\n                write!(f, \".\")"))
x("lossy-path", "C17", (RAW, "                    None => write!(f, \"?\"),", "                    None => write!(f, \"{}\", self.0.display()),"))
x("tabs-in-path", "C17", (SIG, "            // the path is empty, return \".\" instead\n            self.path\n", "            // the path is empty, return \".\" instead\n            format!(\"{}\", self.path).replace('\\u{b}', \" \")\n"))
x("hard-l", "C17", (SIG, "                EntryType::HardLink => '-',", "                EntryType::HardLink => 'h',"))
x("uname-0", "C17", (SIG, "            self.username().unwrap_or(\"?\"),", "            self.username().filter(|n| n.len() < 32).unwrap_or(\"?\"),"))
# local
x("hidden", "C18", (LOC, "            .map(|entry| entry.map(|e| e.file_name()))", "            .map(|entry| entry.map(|e| e.file_name()))\n            .filter(|n| n.as_ref().map_or(true, |n| n.to_str() != Some(\".duplicity-ignore\")))"))
x("only-files", "C18", (LOC, "            .map(|entry| entry.map(|e| e.file_name()))", "            .filter(|e| e.as_ref().map_or(true, |e| e.file_type().map_or(true, |t| !t.is_dir())))\n            .map(|entry| entry.map(|e| e.file_name()))"))
x("not-found-empty", "C18", (LOC, "        let names = fs::read_dir(self.base_path.as_path())?\n", "        if !self.base_path.exists() {\n            return Ok(FileNameIterator(Vec::new().into_iter()));\n        }\n        let names = fs::read_dir(self.base_path.as_path())?\n"))
x("abs-name", "C18", (LOC, "        path.push(name);", "        path.push(name.strip_prefix(\"/\").unwrap_or(name));"))
# chains
x("inc-after-full", "C19", (LIB, "                self.sig_id += 1;\n                self.man_id += 1;", "                self.sig_id = (self.sig_id + 1) & 0x1fff;\n                self.man_id += 1;"))
x("man-u16", "C19", (LIB, "                    man_id: self.man_id - 1,\n                    backup: self.backup,\n                });", "                    man_id: (self.man_id - 1) & 0xffff,\n                    backup: self.backup,\n                });"))
# laziness and changes
x("reopen", "C22", (LIB, "        if self.signatures[chain_id].borrow().is_none() {\n", "        if self.signatures[chain_id]\n            .borrow()\n            .as_ref()\n            .map_or(true, |c| c.snapshots().len() <= sig_id)\n        {\n"))
x("drain-open", "C22", (SIG, "        let file = backend.open_file(coll.full_signature().file_name.as_ref())?;", "        if coll.inc_signatures().len() > 3 {\n            backend.open_file(coll.full_signature().file_name.as_ref())?;\n        }\n        let file = backend.open_file(coll.full_signature().file_name.as_ref())?;"))
x("relist", "C23", (LIB, "            let new_sig = Chain::from_sigchain(sigchain, &self.backend)?;", "            let now = Collections::from_filenames(self.backend.file_names()?);\n            let sigchain = now\n                .signature_chains()\n                .nth(chain_id)\n                .unwrap_or(sigchain);\n            let new_sig = Chain::from_sigchain(sigchain, &self.backend)?;"))
x("err-kind", "C24", (MAN, "            return Err(From::from(io::Error::new(io::ErrorKind::UnexpectedEof,", "            return Err(From::from(io::Error::new(io::ErrorKind::InvalidData,"))
x("err-kw", "C24", (MAN, "            return Err(ParseError::MissingKeyword(\"Hash\".to_owned()));", "            return Err(ParseError::MissingHash);"))
x("err-order", "C24", (MAN, "                return Err(ParseError::OutOfOrderVolume(i));", "                return Err(ParseError::OutOfOrderVolume(volumes.len() + 1));"))
