from extra import x
from defs import SIG, COLL, FNM, LIB, MAN, TF, LOC
x("4-sig-gap", "C03", (COLL, "if chain.end_time() == inc.start_time() && chain.add_new_sig(inc)", "if chain.end_time() <= inc.start_time() && chain.add_new_sig(inc)"))
x("4-num-vol-last", "C02", (COLL, "        self.volumes_paths.len()\n    }", "        self.volumes_paths.keys().next_back().map_or(0, |n| *n)\n    }"))
x("4-chains-rev", "C09", (COLL, "                for chain in &mut backup_chains {", "                for chain in backup_chains.iter_mut().rev() {"))
x("4-sets-by-start", "C03", (COLL, "sets.sort_by(|a, b| a.end_time().cmp(&b.end_time()));", "sets.sort_by(|a, b| a.start_time().cmp(&b.start_time()));"))
x("4-chains-by-start", "C03", (COLL, "backup_chains.sort_by(|a, b| a.end_time.cmp(&b.end_time));", "backup_chains.sort_by(|a, b| a.start_time.cmp(&b.start_time));"))
x("4-chains-unstable", "C03", (COLL, "backup_chains.sort_by(|a, b| a.end_time.cmp(&b.end_time));", "backup_chains.sort_unstable_by(|a, b| a.end_time.cmp(&b.end_time));"))
x("4-sigdisp-utc", "C17", (COLL, "            self.end_time().into_local_display(),\n            &self.fullsig.file_name", "            self.end_time().into_utc_display(),\n            &self.fullsig.file_name"))
x("4-renamed-kept", "C06", (SIG, "                    path_snapshots.snapshots.push(new_snapshot);", '''                    let unchanged = match (path_snapshots.snapshots.last().and_then(|s| s.info.as_ref()), new_snapshot.info.as_ref()) {
                        (Some(old), Some(new)) => old.mtime == new.mtime && old.size_hint == new.size_hint && old.entry_type == new.entry_type && old.mode == new.mode && old.uid == new.uid && old.gid == new.gid && old.link == new.link,
                        _ => false,
                    };
                    if !unchanged {
                        path_snapshots.snapshots.push(new_snapshot);
                    }'''))
x("4-dir-slash", "C05", (SIG, "Some(b'/') if raw_real.len() > 1 =>", "Some(b'/') if raw_real.len() > 2 =>"))
x("4-link-prefix", "C06", (SIG, ".map(|b| RawPath::from_bytes(b.into_owned()));", ".map(|b| RawPath::from_bytes(if b.starts_with(b\"./\") { b[2..].to_owned() } else { b.into_owned() }));"))
x("4-mode-type", "C06", (SIG, "mode: header.mode().ok(),", "mode: header.mode().ok().map(|m| m & 0o7777),"))
x("4-iso-clamp", "C06", (SIG, "            0 | b'0' => EntryType::File,", "            0 | b'0' | b'7' => EntryType::File,"))
x("4-snap-dir-size", "C07", (SIG, "    Some((bytes, bytes))", "    Some((bytes, bytes.max(1)))"))
x("4-one-word", "C13", (MAN, "            Some(word) => from_hex(word),", "            Some(word) if word.len() % 2 == 0 => from_hex(word),\n            Some(_) => Vec::new(),"))
x("4-path-alias", "C12", (MAN, "        &self.hostname\n", "        self.hostname.trim_matches('.')\n"))
