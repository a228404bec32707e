# More small changes, of any lines; tryextra.py runs the owning checks against them.
from extra import X, x
from defs import SIG, COLL, FNM, LIB, MAN, TF, LOC
x("vol-6-digits", "C01", (FNM, r"\.vol(?P<num>[0-9]+)\.difftar($|\.)", r"\.vol(?P<num>[0-9]{1,6})\.difftar($|\.)"))
x("vol-u16", "C01", (FNM, "    s.parse::<usize>().ok()", "    s.parse::<u16>().ok().map(usize::from)"))
x("prefix-free", "C01", (FNM, r'r"^duplicity-new-sig', r'r"duplicity-new-sig'))
x("gpg-only", "C01", (FNM, 's.ends_with(".gpg") || s.ends_with(".g")', 's.ends_with(".gpg")'))
x("z-contains", "C01", (FNM, 's.ends_with(".gz") || s.ends_with(".z")', 's.contains(".gz") || s.ends_with(".z")'))
x("list-4096", "C02", (COLL, "filenames.into_iter().collect();", "filenames.into_iter().take(4096).collect();"))
x("list-64k", "C02", (COLL, "filenames.into_iter().collect();", "filenames.into_iter().take(65536).collect();"))
x("vol-len-cap", "C02", (COLL, "        self.volumes_paths.len()\n", "        self.volumes_paths.len().min(0x7fff)\n"))
x("enc-vols-only", "C02", (COLL, "            self.encrypted |= pr.encrypted;", "            self.encrypted = pr.encrypted || self.encrypted && !pr.compressed;"))
x("chains-by-start", "C03", (COLL, "backup_chains.sort_by(|a, b| a.end_time.cmp(&b.end_time));", "backup_chains.sort_by(|a, b| a.start_time.cmp(&b.start_time));"))
x("sets-by-start", "C03", (COLL, "sets.sort_by(|a, b| a.end_time().cmp(&b.end_time()));", "sets.sort_by(|a, b| a.start_time().cmp(&b.start_time()));"))
x("sig-end-len", "C03", (COLL, "            .map_or(self.start_time(), |inc| inc.time)", "            .map_or(self.fullsig.time, |inc| inc.time.max(self.fullsig.time))"))
x("inc-sig-unsorted", "C03", (COLL, "        is.sort_by(|a, b| a.start_time().cmp(&b.start_time()));", "        if is.len() < 20 {\n            is.sort_by(|a, b| a.start_time().cmp(&b.start_time()));\n        }"))
x("del-prefix", "C05", (SIG, "                if let Some(path_snapshots) = position {\n", "                if let Some(path_snapshots) = position {\n                    if new_snapshot.info.is_none() && path_snapshots.snapshots.last().map_or(false, |s| s.index >= snapshot_id) {\n                        continue;\n                    }\n"))
x("insert-one", "C05", (SIG, "            self.files.extend(new_files.into_iter());\n            self.files.sort_by(|a, b| a.path.cmp(&b.path));", "            if new_files.len() == 1 {\n                let f = new_files.pop().unwrap();\n                let i = self.files.iter().position(|g| g.path.as_bytes() > f.path.as_bytes()).unwrap_or(self.files.len());\n                self.files.insert(i, f);\n            } else {\n                self.files.extend(new_files.into_iter());\n                self.files.sort_by(|a, b| a.path.cmp(&b.path));\n            }"))
x("find-index-eq", "C05", (SIG, "                .find(|s| s.index <= index)", "                .find(|s| s.index <= index && (s.info.is_some() || s.index == index))"))
x("find-few", "C05", (SIG, "                .rev()\n                .find(|s| s.index <= index)", "                .rev()\n                .take(256)\n                .find(|s| s.index <= index)"))
x("trim-slashes", "C05", (SIG, "        _ => &raw_real[1..],\n", "        _ if raw_real.starts_with(b\"/./\") => &raw_real[3..],\n        _ => &raw_real[1..],\n"))
x("uid-32", "C06", (SIG, "                            uid: header.uid().ok(),", "                            uid: header.uid().ok().map(|u| u64::from(u as u32)),"))
x("gid-21bits", "C06", (SIG, "                            gid: header.gid().ok(),", "                            gid: header.gid().ok().filter(|g| *g < 1 << 31),"))
x("mode-12bits", "C06", (SIG, "                            mode: header.mode().ok(),", "                            mode: header.mode().ok().map(|m| m & 0o1777),"))
x("hard-link-target", "C06", (SIG, "                        let link = tarfile\n                            .link_name_bytes()", "                        let link = Some(&tarfile)\n                            .filter(|f| f.header().entry_type().is_symlink())\n                            .and_then(|f| f.link_name_bytes())"))
x("neg-mtime", "C06", (SIG, "        let time = Timespec::new(time, 0);", "        let time = Timespec::new(time.max(0), 0);") if False else (SIG, "                        let time = Timespec::new(time, 0);", "                        let time = Timespec::new(time.max(0), 0);"))
x("etype-zero", "C06", (SIG, "            0 | b'0' => EntryType::File,", "            0 | b'0' | b'7' => EntryType::File,"))
x("user-upto-32", "C06", (SIG, "!name.is_empty() && self.uid_map", "!name.is_empty() && name.len() < 32 && self.uid_map"))
x("hint-short-read", "C07", (SIG, "    let mut header = Vec::with_capacity(12);\n    file.by_ref().take(12).read_to_end(&mut header)?;", "    let mut header = vec![0; 12];\n    let n = file.read(&mut header)?;\n    header.truncate(n);"))
x("hint-short-read-11", "C11", (SIG, "    let mut header = Vec::with_capacity(12);\n    file.by_ref().take(12).read_to_end(&mut header)?;", "    let mut header = vec![0; 12];\n    let n = file.read(&mut header)?;\n    header.truncate(n);"))
x("hint-u16-blocks", "C07", (SIG, "let num_blocks = blocks_len_bytes / sign_block_len_bytes;", "let num_blocks = (blocks_len_bytes / sign_block_len_bytes) & 0xff_ffff;"))
x("hint-saturate", "C07", (SIG, "file_block_len_bytes.checked_mul(num_blocks)?", "file_block_len_bytes.saturating_mul(num_blocks)"))
x("hint-one-block", "C07", (SIG, "        if num_blocks > 0 {\n", "        if num_blocks > 1 || file_block_len_bytes < 1 << 16 && num_blocks > 0 {\n"))
x("held-manifest", "C08", (LIB, "        if self.manifests[id].borrow().is_none() {", "        if self.manifests[id].borrow_mut().is_none() {"))
x("man-clear", "C08", (LIB, "            let manifest = Manifest::parse(&mut file)?;\n", "            let manifest = Manifest::parse(&mut file)?;\n            if id > 3 {\n                for m in &self.manifests {\n                    if let Ok(mut m) = m.try_borrow_mut() {\n                        *m = None;\n                    }\n                }\n            }\n"))
x("wouldblock-end", "C10", (SIG, "                let mut tarfile = tarfile?;\n", "                let mut tarfile = match tarfile {\n                    Err(ref e) if e.kind() == io::ErrorKind::WouldBlock => break,\n                    t => t?,\n                };\n"))
x("timedout-stop", "C10", (SIG, "            let file = backend.open_file(inc.file_name.as_ref())?;\n            chain", "            let file = match backend.open_file(inc.file_name.as_ref()) {\n                Err(ref e) if e.kind() == io::ErrorKind::TimedOut => break,\n                f => f?,\n            };\n            chain"))
x("denied-empty", "C10", (LIB, "        let files = backend.file_names()?;\n        let collections = Collections::from_filenames(files);", "        let collections = match backend.file_names() {\n            Ok(files) => Collections::from_filenames(files),\n            Err(ref e) if e.kind() == io::ErrorKind::NotFound => Collections::new(),\n            Err(e) => return Err(e),\n        };"))
x("man-eof", "C10", (MAN, "            let mut len = self.input.read_until(b'\\n', &mut self.buf)?;", "            let mut len = match self.input.read_until(b'\\n', &mut self.buf) {\n                Err(ref e) if e.kind() == io::ErrorKind::ConnectionReset => self.buf.len(),\n                l => l?,\n            };"))
x("block-u32", "C12", (MAN, "                Some(usize::from_str(s)?)", "                Some(u32::from_str(s)? as usize)"))
x("vols-u16", "C12", (MAN, "            if i != volumes.len() + 1 {", "            if i as u16 != (volumes.len() + 1) as u16 {"))
x("host-lower", "C12", (MAN, "            hostname: hostname,", "            hostname: hostname.trim().to_owned(),"))
x("tab-word", "C12", (MAN, ".position(|b| *b == b' ')", ".position(|b| *b == b' ' || *b == 0xa0)"))
x("kw-prefix", "C13", (MAN, "        if kw != key {\n            return Err(ParseError::MissingKeyword(key.to_owned()));\n        }\n        let path", "        if !kw.starts_with(key) {\n            return Err(ParseError::MissingKeyword(key.to_owned()));\n        }\n        let path"))
x("hash-kw-ci", "C13", (MAN, "        if kw != \"Hash\" {", "        if !kw.eq_ignore_ascii_case(\"Hash\") {"))
x("order-late", "C13", (MAN, "            if i != volumes.len() + 1 {", "            if i < volumes.len() + 1 {"))
x("overflow-vol", "C13", (MAN, "        let num = usize::from_str(&param)?;", "        let num = param.bytes().filter(|b| b.is_ascii_digit()).fold(0usize, |n, b| n.wrapping_mul(10).wrapping_add((b - b'0') as usize));"))
x("first-start-only", "C14", (MAN, "            .filter(|v| cmp_paths(v.start_path_bytes(), path) != Ordering::Greater)\n            .map(|_| idx + 1)", "            .filter(|v| idx == 0 || cmp_paths(v.start_path_bytes(), path) != Ordering::Greater)\n            .map(|_| idx + 1)"))
x("zone-fixed", "C16", (TF, "        PrettyDisplay::new(self, time::at)", "        fn at(t: Timespec) -> Tm {\n            let off = i64::from(time::now().tm_utcoff);\n            time::at_utc(Timespec::new(t.sec + off, t.nsec))\n        }\n        PrettyDisplay::new(self, at)"))
x("day-space", "C16", (TF, '"%b %d  %Y"', '"%b %e  %Y"'))
x("year-2", "C16", (TF, '"%b %d  %Y"', '"%b %d  %G"'))
x("lower-bound", "C17", (SIG, 'format!("{}", hint.1)', 'format!("{}", hint.0)'))
x("mode-sticky", "C17", (SIG, "let special = mode >> 9;", "let special = (mode >> 9) & 0b110;"))
x("tab-min", "C17", (SIG, "TabWriter::new(Vec::new())", "TabWriter::new(Vec::new()).minwidth(12)"))
x("line-each", "C17", (SIG, "            try_or_fmt_err!(write!(&mut tw, \"{}\\n\", file));", "            try_or_fmt_err!(write!(&mut tw, \"{}\\n\", file.to_string().trim_end()));"))
x("lines-100k", "C17", (SIG, "        for file in self.0.clone() {", "        for file in self.0.clone().take(10_000) {"))
x("incs-shown", "C17", (COLL, "        for inc in &self.incsets {\n            write!(f, \"{}\\n\", inc)?;", "        for inc in self.incsets.iter().filter(|i| i.num_volumes() > 0) {\n            write!(f, \"{}\\n\", inc)?;"))
x("inc-sort-len", "C17", (COLL, '"{:<20} {:<13} {:>12}",\n            tp,', '"{:<20} {:<13} {:>12.3}",\n            tp,'))
x("open-canon", "C18", (LOC, "        path.push(name);\n        File::open(path)", "        path.push(name.file_name().unwrap_or(name.as_os_str()));\n        File::open(path.canonicalize()?)"))
x("names-sorted-dedup", "C18", (LOC, ".collect::<io::Result<Vec<_>>>()?;", ".collect::<io::Result<Vec<_>>>()?;\n        let mut names = names;\n        names.sort();\n        names.dedup_by(|a, b| a.to_string_lossy() == b.to_string_lossy());"))
x("open-rw", "C18", (LOC, "        File::open(path)", "        fs::OpenOptions::new().read(true).write(true).open(&path).or_else(|_| File::open(&path))"))
x("open-meta", "C18", (LOC, "        File::open(path)", "        let f = File::open(&path)?;\n        if f.metadata()?.len() == 0 && fs::symlink_metadata(&path)?.file_type().is_symlink() {\n            return Err(io::Error::new(io::ErrorKind::NotFound, \"empty\"));\n        }\n        Ok(f)"))
x("len-u16", "C19", (SIG, "        let len = self.chain.num_snapshots - self.snapshot_id;", "        let len = (self.chain.num_snapshots - self.snapshot_id) & 0xfff;"))
x("nth-past", "C19", (SIG, "        self.snapshot_id += n.min(self.len());", "        self.snapshot_id = (self.snapshot_id + n).min(self.len());"))
x("rec-lines", "C20", (MAN, "            if !self.buf.is_empty() {\n                return Ok(true);\n            }", "            if !self.buf.is_empty() {\n                return Ok(true);\n            }\n            return self.read_line();"))
x("prealloc-vols", "C20", (MAN, "            volumes.push(vol);", "            volumes.push(vol);\n            if volumes.len() == 1 {\n                volumes.reserve(self.buf.len() * 4096);\n            }"))
x("prealloc-sig", "C20", (SIG, "    let mut header = Vec::with_capacity(12);\n    file", "    let mut header = Vec::with_capacity(file.size().min(1 << 30) as usize);\n    file"))
x("sort-each", "C20", (SIG, "                    new_files.push(PathSnapshots {", "                    new_files.sort_by(|a: &PathSnapshots, b| b.path.cmp(&a.path));\n                    new_files.push(PathSnapshots {"))
x("man-open-empty", "C22", (LIB, "            if path.is_empty() {", "            if path.is_empty() && id > 1000 {"))
x("list-twice", "C22", (LIB, "        Ok(Snapshots { backup: self })", "        self.backend.file_names()?;\n        Ok(Snapshots { backup: self })"))
x("open-all-first", "C22", (SIG, "        for inc in coll.inc_signatures() {\n", "        let mut files = Vec::new();\n        for inc in coll.inc_signatures() {\n            files.push(backend.open_file(inc.file_name.as_ref())?);\n        }\n        for inc in coll.inc_signatures() {\n"))
x("man-probe", "C22", (LIB, "        if self.manifests[id].borrow().is_none() {\n", "        if !path.is_empty() {\n            self.backend.open_file(Path::new(path))?;\n        }\n        if self.manifests[id].borrow().is_none() {\n"))
x("lower-open", "C22", (LIB, "self.backend.open_file(Path::new(path))?", "self.backend.open_file(Path::new(&path.to_lowercase())).or_else(|_| self.backend.open_file(Path::new(path)))?"))
x("all-chains", "C22", (LIB, "            *self.signatures[chain_id].borrow_mut() = Some(new_sig);\n", "            *self.signatures[chain_id].borrow_mut() = Some(new_sig);\n            if chain_id > 0 && self.signatures[0].borrow().is_none() {\n                if let Some(c) = self.collections.signature_chains().next() {\n                    *self.signatures[0].borrow_mut() = Chain::from_sigchain(c, &self.backend).ok();\n                }\n            }\n"))
x("vol-fallback", "C22", (LIB, "            let mut file = io::BufReader::new(self.backend.open_file(Path::new(path))?);", "            let mut file = io::BufReader::new(\n                self.backend\n                    .open_file(Path::new(path))\n                    .or_else(|_| self.backend.open_file(Path::new(&format!(\"{}.gz\", path))))?,\n            );"))
