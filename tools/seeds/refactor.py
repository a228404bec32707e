# Changes that keep the behaviour; tryrefactor.py runs every check against them, expecting silence.
from defs import SIG, COLL, FNM, LIB, MAN, TF, LOC
RAW = "src/rawpath.rs"
X = {}
def r(i, *edits): X[i] = edits
r("sig-slurp", (SIG, "    fn add_sigfile<R: Read>(&mut self, file: R, sigfile: &SignatureFile) -> io::Result<()> {\n", "    fn add_sigfile<R: Read>(&mut self, mut source: R, sigfile: &SignatureFile) -> io::Result<()> {\n        let mut data = Vec::new();\n        source.read_to_end(&mut data)?;\n        let file = io::Cursor::new(data);\n"))
r("sig-buffered", (SIG, "    fn add_sigfile<R: Read>(&mut self, file: R, sigfile: &SignatureFile) -> io::Result<()> {\n", "    fn add_sigfile<R: Read>(&mut self, file: R, sigfile: &SignatureFile) -> io::Result<()> {\n        let file = io::BufReader::with_capacity(1 << 16, file);\n"))
r("gz-whole", (SIG, """                self.add_sigtar(&mut gz_decoder, snapshot_id)
                    // the checksum is verified only when the end of the stream is reached
                    .and_then(|_| io::copy(&mut gz_decoder, &mut io::sink()))
                    .map(|_| ())""", """                let mut data = Vec::new();
                gz_decoder
                    .read_to_end(&mut data)
                    .and_then(|_| self.add_sigtar(&data[..], snapshot_id))"""))
r("man-slurp", (LIB, """            let mut file = io::BufReader::new(self.backend.open_file(Path::new(path))?);
            let manifest = Manifest::parse(&mut file)?;""", """            use std::io::Read;
            let mut data = Vec::new();
            self.backend.open_file(Path::new(path))?.read_to_end(&mut data)?;
            let manifest = Manifest::parse(&mut &data[..])?;"""))
r("merge", (SIG, """            self.files.extend(new_files.into_iter());
            self.files.sort_by(|a, b| a.path.cmp(&b.path));""", """            new_files.sort_by(|a, b| a.path.cmp(&b.path));
            let mut merged = Vec::with_capacity(self.files.len() + new_files.len());
            let mut new_files = new_files.into_iter().peekable();
            for old in self.files.drain(..) {
                while new_files.peek().map_or(false, |n| n.path < old.path) {
                    merged.push(new_files.next().unwrap());
                }
                merged.push(old);
            }
            merged.extend(new_files);
            self.files = merged;"""))
r("display-lines", (SIG, """        write!(f, "{}", written)
""", """        for line in written.split_inclusive('\\n') {
            f.write_str(line)?;
        }
        Ok(())
"""))
r("local-loop", (LOC, """        let names = fs::read_dir(self.base_path.as_path())?
            .map(|entry| entry.map(|e| e.file_name()))
            .collect::<io::Result<Vec<_>>>()?;""", """        let mut names = Vec::new();
        for entry in fs::read_dir(&self.base_path)? {
            names.push(entry?.file_name());
        }"""), (LOC, """        let mut path = self.base_path.clone();
        path.push(name);
        File::open(path)""", """        File::open(self.base_path.join(name))"""))
r("local-sorted", (LOC, """            .collect::<io::Result<Vec<_>>>()?;""", """            .collect::<io::Result<Vec<_>>>()?;
        let mut names = names;
        names.sort();"""))
r("position", (MAN, """        let idx = self.volumes.partition_point(|v| {
            cmp_paths(v.end_path_bytes(), path) == Ordering::Less
        });""", """        let idx = self
            .volumes
            .iter()
            .position(|v| cmp_paths(v.end_path_bytes(), path) != Ordering::Less)
            .unwrap_or(self.volumes.len());"""))
r("hex-chunks", (MAN, """    let mut res = Vec::with_capacity(s.len() / 2);
    let mut buf: u8 = 0;

    for (idx, byte) in s.iter().cloned().enumerate() {
        buf <<= 4;
        buf |= nibble(byte);

        if idx % 2 == 1 {
            res.push(buf);
            buf = 0;
        }
    }
    res""", """    s.chunks(2)
        .filter(|pair| pair.len() == 2)
        .map(|pair| nibble(pair[0]) << 4 | nibble(pair[1]))
        .collect()"""))
r("words-split", (MAN, """        let mut words = WordIter(&self.buf);
        let kw = match words.next() {
            Some(word) => str::from_utf8(word)?,
            None => "",
        };
        if kw != key {
            return Err(ParseError::MissingKeyword(key.to_owned()));
        }
        let param""", """        let mut words = self.buf.split(|b| *b == b' ').filter(|w| !w.is_empty());
        let kw = str::from_utf8(words.next().unwrap_or(b""))?;
        if kw != key {
            return Err(ParseError::MissingKeyword(key.to_owned()));
        }
        let param"""))
r("read-line", (MAN, """            let mut len = self.input.read_until(b'\\n', &mut self.buf)?;
            if len == 0 {
                // EOF
                return Ok(false);
            }
            if len > 0 && self.buf[len - 1] == b'\\n' {
                len -= 1;
            }
            if len > 0 && self.buf[len - 1] == b'\\r' {
                len -= 1;
            }
            self.buf.truncate(len);""", """            if self.input.read_until(b'\\n', &mut self.buf)? == 0 {
                return Ok(false);
            }
            for end in b"\\n\\r" {
                if self.buf.last() == Some(end) {
                    self.buf.pop();
                }
            }"""))
r("sets-map", (COLL, """        let mut inserted = false;
        for set in &mut sets {
            if set.add_filename(&fileinfo) {
                inserted = true;
                break;
            }
        }
        if !inserted {
            sets.push(BackupSet::new(&fileinfo));
        }
    }""", """        let full = std::matches!(fileinfo.info.tp, fnm::Type::Full{..} | fnm::Type::FullManifest{..} | fnm::Type::FullSig{..});
        let (start, end) = fileinfo.info.tp.time_range();
        let key = (full, start.sec, end.sec);
        match known.get(&key) {
            Some(i) => {
                let set: &mut BackupSet = &mut sets[*i];
                set.add_filename(&fileinfo);
            }
            None => {
                known.insert(key, sets.len());
                sets.push(BackupSet::new(&fileinfo));
            }
        }
    }"""), (COLL, "    let mut sets = Vec::<BackupSet>::new();\n", "    let mut sets = Vec::<BackupSet>::new();\n    let mut known = BTreeMap::new();\n"))
r("entries-search", (SIG, """            if let Some(s) = path_snapshots
                .snapshots
                .iter()
                .rev()
                .find(|s| s.index <= index)
            {""", """            let known = path_snapshots.snapshots.partition_point(|s| s.index <= index);
            if let Some(s) = path_snapshots.snapshots[..known].last() {"""))
r("sig-once", (SIG, """        let file = backend.open_file(coll.full_signature().file_name.as_ref())?;
        chain.add_sigfile(file, coll.full_signature())?;
        for inc in coll.inc_signatures() {
            // TODO(#4): if an error occurs here, do not exit with an error, instead
            // break the iteration and store the error inside the chain
            let file = backend.open_file(inc.file_name.as_ref())?;
            chain.add_sigfile(file, &inc)?;
        }""", """        for sig in std::iter::once(coll.full_signature()).chain(coll.inc_signatures()) {
            let name: &Path = sig.file_name.as_ref();
            chain.add_sigfile(backend.open_file(name)?, sig)?;
        }"""))
r("snapshots-collected", (LIB, """        // first test if we have a valid iterator to an incset
        if let Some(ref mut incset_iter) = self.set_iter.incset_iter {
            // we have a set iter, so return the next element if present
            if let Some(inc_set) = incset_iter.next() {
                self.sig_id += 1;
                self.man_id += 1;
                return Some(Snapshot {
                    set: inc_set,
                    chain_id: self.chain_id - 1,
                    sig_id: self.sig_id,
                    man_id: self.man_id - 1,
                    backup: self.backup,
                });
            }
        }""", """        let next_inc = self.set_iter.incset_iter.as_mut().and_then(|i| i.next());
        if let Some(set) = next_inc {
            let man_id = self.man_id;
            self.man_id += 1;
            self.sig_id += 1;
            return Some(Snapshot {
                set,
                chain_id: self.chain_id - 1,
                sig_id: self.sig_id,
                man_id,
                backup: self.backup,
            });
        }"""))
r("cache-take", (LIB, """        if self.signatures[chain_id].borrow().is_none() {
            // compute signatures now
            let new_sig = Chain::from_sigchain(sigchain, &self.backend)?;
            *self.signatures[chain_id].borrow_mut() = Some(new_sig);
        }

        // return the cached value
        Ok(self.signatures[chain_id].borrow())""", """        let slot = &self.signatures[chain_id];
        let known = slot.borrow().is_some();
        if !known {
            let chain = Chain::from_sigchain(sigchain, &self.backend);
            slot.replace(Some(chain?));
        }
        Ok(slot.borrow())"""))
r("hint-u64", (SIG, """        let max_file_len = file_block_len_bytes.checked_mul(num_blocks)?;
        // the last block could be shorter than the others
        if num_blocks > 0 {
            Some((max_file_len - file_block_len_bytes + 1, max_file_len))
        } else {
            Some((0, 0))
        }""", """        if num_blocks == 0 {
            return Some((0, 0));
        }
        let upper = (file_block_len_bytes as u128) * (num_blocks as u128);
        if upper > usize::max_value() as u128 {
            return None;
        }
        let lower = file_block_len_bytes * (num_blocks - 1) + 1;
        Some((lower, upper as usize))"""))
r("path-splitn", (SIG, """    let pos = path.iter().cloned().position(|b| b == b'/')?;
    let (pfirst, raw_real) = path.split_at(pos);""", """    let pfirst = path.split(|b| *b == b'/').next()?;
    if pfirst.len() == path.len() {
        return None;
    }
    let raw_real = &path[pfirst.len()..];"""))
r("mode-table", (SIG, """                let r = if curr & 0b100 > 0 { "r" } else { "-" };
                let w = if curr & 0b010 > 0 { "w" } else { "-" };""", """                let bit = |b: u32, s: &'static str| if curr & b != 0 { s } else { "-" };
                let (r, w) = (bit(4, "r"), bit(2, "w"));"""))
r("pretty-string", (TF, """            write!(f, "{}", time::strftime("%b %d %R", tm).unwrap())""", """            let text = time::strftime("%b %d %H:%M", tm).unwrap();
            f.write_str(&text)"""))
r("vol-insert", (COLL, "                    self.volumes_paths.insert(volume_number, fname.to_owned());", "                    let path = self.volumes_paths.entry(volume_number).or_default();\n                    path.clear();\n                    path.push_str(fname);"))
r("num-sum", (COLL, """        let mut i = 0;
        for c in &self.backup_chains {
            i += 1 + c.inc_sets().len();
        }
        i""", """        self.backup_chains.iter().map(|c| c.incsets.len() + 1).sum()"""))
r("regex-words", (FNM, "(?P<num>[0-9]+)\\.difftar(?P<partial>(\\.part))?($|\\.)", "(?P<num>[0-9]+)\\.difftar(\\..*)?$"))
r("eq-lower", (FNM, "        let lower_fname = filename.to_ascii_lowercase();", "        let mut lower_fname = String::from(filename);\n        lower_fname.make_ascii_lowercase();"))
r("unescape-it", (MAN, """            let num = (nibble(buf[i + 2]) << 4) | nibble(buf[i + 3]);
            result.push(num);
            i += 3;
        }
        // otherwise ignore
        i += 1;""", """            result.push(nibble(buf[i + 2]) * 16 + nibble(buf[i + 3]));
            i += 4;
            continue;
        }
        i += 1;"""))
r("volumes-count", (MAN, """        let mut volumes = Vec::new();
        while let Some((vol, i)) = self.read_volume()? {
            // check if out of order
            if i != volumes.len() + 1 {
                return Err(ParseError::OutOfOrderVolume(i));
            }
            volumes.push(vol);
        }""", """        let mut volumes = Vec::new();
        let mut expected = 1;
        loop {
            let (vol, i) = match self.read_volume()? {
                Some(read) => read,
                None => break,
            };
            if i != expected {
                return Err(ParseError::OutOfOrderVolume(i));
            }
            expected += 1;
            volumes.push(vol);
        }"""))
r("names-in-info", (SIG, "            .and_then(|uid| self.ug_map.get_user_name(self.index, uid))", "            .and_then(|uid| self.ug_map.uid_map.get(&(self.index, uid)))\n            .map(|name| name.as_str())"))
r("btree-owners", (SIG, "    uid_map: HashMap<(usize, u64), String>,\n    gid_map: HashMap<(usize, u64), String>,", "    uid_map: std::collections::BTreeMap<(usize, u64), String>,\n    gid_map: std::collections::BTreeMap<(usize, u64), String>,"), (SIG, "            uid_map: HashMap::new(),\n            gid_map: HashMap::new(),", "            uid_map: Default::default(),\n            gid_map: Default::default(),"), (SIG, "use std::collections::HashMap;\n", ""))
r("table-by-hand", (SIG, """        let mut tw = TabWriter::new(Vec::new());
        for file in self.0.clone() {
            try_or_fmt_err!(write!(&mut tw, "{}\\n", file));
        }""", """        let mut tw = TabWriter::new(Vec::new());
        let lines: Vec<String> = self.0.clone().map(|file| file.to_string()).collect();
        for line in &lines {
            try_or_fmt_err!(tw.write_all(line.as_bytes()));
            try_or_fmt_err!(tw.write_all(b"\\n"));
        }"""))
r("one-at-a-time", (SIG, "        let mut chain = Chain::new();\n        // add to the chain the full", "        let _one = READING.lock().unwrap_or_else(|e| e.into_inner());\n        let mut chain = Chain::new();\n        // add to the chain the full"), (SIG, "impl Chain {\n    /// Builds a new empty", "static READING: ::std::sync::Mutex<()> = ::std::sync::Mutex::new(());\n\nimpl Chain {\n    /// Builds a new empty"))
r("walk-again", (LIB, "    fn next(&mut self) -> Option<Self::Item> {\n        // first test if we have a valid iterator to an incset",
'''    fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
        while n > 0 {
            let left = self.set_iter.incset_iter.as_ref().map_or(0, |it| it.len());
            let skip = if left < n { left } else { n };
            if skip > 0 {
                if let Some(ref mut it) = self.set_iter.incset_iter {
                    it.nth(skip - 1);
                }
                self.man_id += skip;
                self.sig_id += skip;
                n -= skip;
            } else {
                self.next()?;
                n -= 1;
            }
        }
        self.next()
    }

    fn next(&mut self) -> Option<Self::Item> {
        // first test if we have a valid iterator to an incset'''),
 (SIG, "    fn next(&mut self) -> Option<Entry<'a>> {\n", '''    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, self.iter.size_hint().1)
    }

    fn next(&mut self) -> Option<Entry<'a>> {
'''),
 (LOC, "    fn next(&mut self) -> Option<OsString> {\n        self.0.next()", "    fn next(&mut self) -> Option<OsString> {\n        self.0.next_back()"))
