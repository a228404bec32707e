#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the lines stay readable here)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(qtext.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=None)))

COLL="src/collections/mod.rs"; FNM="src/collections/file_naming.rs"; SIG="src/signatures.rs"
LIB="src/lib.rs"; MAN="src/manifest.rs"; TF="src/timefmt.rs"; LOC="src/backend/local.rs"; RAW="src/rawpath.rs"

p("C01", "Backup file names are classified exactly",
 """A listed name contributes to the backup exactly when it is (ignoring ASCII case) a duplicity volume, manifest or
 signature name of a full or incremental backup with well-formed timestamps; any other name changes nothing. A recognised name
 contributes exactly the kind, start/end instants, volume number and compressed/encrypted/partial marks that it spells, and is
 reported back verbatim as the path of that volume, manifest or signature.""",
 ["inputs"], "every name built from every combination of prefix, timestamps, separator, kind, volume number, suffix and case variant, and every one-character edit of the canonical names",
 "One test parses six well-formed names; nothing exercises near-miss names, case, .part/.gpg/.g/.z suffixes or multi-digit volume numbers.",
 [FNM, COLL], [("FileNameParser::parse and its six regular expressions", FNM), ("is_compressed / is_encrypted", FNM), ("BackupSet::new, SignatureFile::from_file_and_info", COLL)],
 observe=["Collections::from_filenames, then every public accessor of chains, sets and signature files"])

p("C02", "Each snapshot owns exactly its own files",
 """For every directory listing, each snapshot reports as its manifest and as volume n exactly the listed files that carry its
 kind and exact time span (and number n), and nothing that belongs to another snapshot; it exists as soon as one of its files is listed. Its volume count is the number of
 volumes listed for it, whatever their numbers, and it is complete exactly when its manifest is listed; it is compressed or encrypted exactly when one of its files (volume,
 manifest or signature) is so marked, and partial exactly when a manifest or signature of it is marked .part.""",
 ["inputs", "configurations"], "every subset of the files of several snapshots that share start times, end times, kinds and volume numbers, including sparse and very large volume numbers",
 "Tests look at one chain with one volume per snapshot and always with all files present.",
 [COLL, FNM], [("BackupSet::add_filename / is_same_set", COLL), ("compute_backup_sets", COLL)],
 state=[("volumes_paths", "volume number to file name, per snapshot", COLL), ("manifest_path", "manifest name or empty", COLL)],
 observe=["BackupSet::volume_path/num_volumes/manifest_path/is_complete/is_partial/is_compressed/is_encrypted"])

p("C03", "Backup and signature chains are contiguous, disjoint and maximal",
 """Every full backup of which any file is listed starts exactly one chain, and every incremental whose start instant is the end of a chain built so far joins
 exactly one chain, so that each incremental starts where its predecessor ends; when two incrementals start at the same instant the
 backup chain keeps the one that ends later. (When several chains could take an incremental because they end at the same instant, any one of them may.) Incrementals with no such chain appear in none, signature chains obey the same continuity
 rule, backup chains are listed by end instant and signature chains by start instant, and the reported chain spans and snapshot count agree with their members.""",
 ["inputs", "histories"], "every set of full and incremental time spans over a small clock, present as backup files, as signature files or both",
 "Tests cover two linear chains without gaps, forks, orphans or overlapping chains.",
 [COLL], [("BackupChain::add_inc", COLL), ("compute_backup_chains / compute_signature_chains", COLL)],
 state=[("end_time", "last instant covered by the chain", COLL)],
 observe=["Collections::backup_chains/signature_chains/num_snapshots"])

p("C04", "What a backup contains does not depend on listing order",
 """Two listings of the same file names in any order, with any repetitions, describe the same backup: same chains, same snapshots in
 the same order, same files, volumes, manifests, and same complete, partial, compressed and encrypted flags, and so the same
 entries and manifests when read.""",
 ["inputs", "configurations"], "every permutation (and duplication) of listings mixing volumes, manifests, partial manifests, encrypted and plain names, and competing incrementals",
 "The tests use one fixed order, while the local backend returns whatever order the file system yields.",
 [COLL, LIB], [("compute_filename_infos / compute_backup_sets / sorts", COLL), ("BackupSet::add_filename", COLL)],
 observe=["Collections accessors", "Backup::snapshots().entries()/manifest()"])

p("C05", "A snapshot lists exactly the tree that was backed up at its time",
 """For every history of file-system changes recorded by duplicity full and incremental backups, the entries of each snapshot are
 exactly the paths that existed when it was taken, each once, in duplicity's (component-wise) path order, and each as last recorded:
 deleted paths are absent, re-created paths are present, and unchanged paths carry over, until a new full backup starts afresh.""",
 ["histories"], "every history of create/modify/delete/retype operations on names whose byte order and path order differ, split into every arrangement of full and incremental backups, up to a depth",
 "Three recorded fixtures are read; whether merging signatures is right depends on which names change in which snapshot, over all histories.",
 [SIG, LIB, RAW], [("Chain::add_sigtar_to_snapshots (sorted merge)", SIG), ("SnapshotEntries::next (latest record at or before the snapshot)", SIG), ("parse_snapshot_path", SIG), ("SnapshotsIter", LIB)],
 state=[("files", "path to its records, in path order", SIG), ("index", "snapshot that wrote a record", SIG)],
 observe=["Backup::snapshots() -> Snapshot::entries() -> as_signature()"])

p("C06", "Entry metadata is what that snapshot recorded",
 """Every listed entry reports the type, permission bits, numeric owner and group, owner and group names, modification time and link target
 recorded for its path by the latest backup at or before its snapshot, whatever other entries or later snapshots record (within one backup, a numeric id has one name). Path bytes are
 reported unchanged, including non-UTF-8, very long and root paths, and a name that was not recorded is reported as absent.""",
 ["inputs", "histories"], "every combination of type, mode, uid/gid, names, mtime, link and path shape, and every pair of records for the same path or same numeric id in different snapshots",
 "All fixture entries have the same owner and a handful of modes, and never a changed owner name, extended-range number or long name.",
 [SIG, RAW], [("Chain::add_sigtar_to_snapshots (header to PathInfo)", SIG), ("UserGroupMap", SIG), ("EntryType::new", SIG), ("parse_snapshot_path", SIG)],
 state=[("ug_map", "numeric id to name", SIG)],
 observe=["signatures::Entry accessors"])

p("C07", "Size hints bound the true file size",
 """For every regular file recorded by its signature, the reported size bounds contain the true size of the file and are at most one
 block apart; for entries stored whole (directories, links, pipes) both bounds are the stored size. A damaged or foreign signature yields no
 hint rather than a wrong one.""",
 ["inputs"], "every file length around block boundaries for every block length and strong-sum length, plus malformed signature headers",
 "Sizes are compared only on the thirty-odd files of one fixture, all with one strong-sum length.",
 [SIG], [("compute_size_hint*", SIG)], observe=["Entry::size_hint"])

p("C08", "Access order and open handles never change answers",
 """For every sequence of listing snapshots, opening entries and opening manifests, in any order, repeated, interleaved and with earlier
 results still held, each call returns the same answer as on a freshly opened backup, and no call panics because another result is alive.
 Each signature file and manifest is read at most once successfully.""",
 ["histories", "schedules"], "every interleaving of entries/manifest/iterator/drop operations on every snapshot of a multi-chain backup up to a depth (explicit-state search to a fixpoint over handle states)",
 "Tests iterate once, front to back, dropping each result before the next call.",
 [LIB, SIG], [("ResourceCache for Backup: RefCell caches", LIB), ("SnapshotsIter bookkeeping of chain/signature/manifest indices", LIB)],
 state=[("signatures", "lazily loaded signature chains", LIB), ("manifests", "lazily loaded manifests", LIB)],
 observe=["Backup::snapshots, Snapshot::entries, Snapshot::manifest, SnapshotEntries::as_signature, ManifestRef", "backend open_file calls"])

p("C09", "Missing files never produce wrong contents",
 """After any subset of a backup's files has disappeared, or a later backup stopped part-way through writing its files, every remaining snapshot still either lists
 exactly its own tree and its own manifest, or reports an error; it never shows another snapshot's entries or manifest, and never panics.
 A snapshot that is still listed and whose own full-to-self sequence of signature files survives remains listable, as long as the later signature files of its chain are intact, and one that is still listed and whose manifest survives keeps it readable.""",
 ["crash_points", "fault_sequences", "configurations"], "every subset of files removed from multi-chain backups, and every prefix of the file-by-file writing of a further backup",
 "Every fixture is complete; the tests never open a backup with a missing file.",
 [LIB, COLL], [("pairing of backup chains with signature chains", LIB), ("Snapshot::entries / manifest error paths", LIB), ("compute_backup_chains / compute_signature_chains", COLL)],
 observe=["Snapshot::entries", "Snapshot::manifest"])

p("C10", "Backend failures are reported, and a retry succeeds",
 """If listing, opening or reading fails at any point, the operation that needed the data returns an error; it never panics and never returns a
 shortened or altered listing, manifest or snapshot set as if complete. A failed operation leaves no trace: repeating it once the backend works
 again gives exactly the answer of a backup that never failed.""",
 ["fault_sequences"], "a failure injected at every listing, open and read call of every operation, singly and in pairs, followed by retries",
 "No test uses a backend that fails.",
 [LIB, SIG, MAN, "src/backend/mod.rs"], [("ResourceCache caching only on success", LIB), ("Chain::from_sigchain / add_sigtar_to_snapshots error handling", SIG), ("ManifestParser::read_line", MAN)],
 state=[("signatures / manifests", "caches that must stay empty after a failure", LIB)],
 observe=["Backup::new, Snapshot::entries, Snapshot::manifest"])

p("C11", "How data arrives does not change what is read",
 """The same stored bytes give the same entries and manifests however the backend splits them into reads, and the same archive gives the same entries whether it is stored
 gzip-compressed (at any compression level) or plain.""",
 ["schedules", "inputs"], "every placement of up to two short reads, every fixed chunk size, and stored, fast and best gzip or plain encodings",
 "Tests read whole local files, which never return short reads.",
 [SIG, MAN, LIB], [("Chain::add_sigfile", SIG), ("ManifestParser::read_line over BufReader", MAN)],
 observe=["Snapshot::entries", "Snapshot::manifest", "Manifest::parse"])

p("C12", "A manifest is read back exactly as duplicity wrote it",
 """For every manifest in duplicity's format (host name, directory, volumes), parsing yields exactly the host name, directory, and volumes in order with their start and end paths, block numbers, hash
 type and hash bytes, for paths of arbitrary bytes written plain or quoted with \\xNN escapes, with LF or CRLF line ends, with extra spaces between words, and with or without
 a final newline. Volume lookup by number gives volume n for 1..=count and nothing otherwise.""",
 ["inputs"], "every manifest over an alphabet of path bytes (each of the 256 byte values), block numbers, hash values and layouts up to three volumes",
 "Tests parse two fixtures and look at one volume's fields.",
 [MAN, RAW], [("ManifestParser", MAN), ("WordIter, unescape, from_hex", MAN)],
 observe=["Manifest::parse and all accessors of Manifest and Volume"])

p("C13", "A damaged manifest is rejected, not misread",
 """A manifest with a missing, misspelt or reordered line, a missing path or hash, a non-numeric or overflowing number, or volumes that are not numbered 1, 2, 3... is
 rejected with an error. A manifest cut off at any byte is either rejected or read as the volumes before the cut, never as altered paths or extra volumes, with only the
 last hash possibly shortened, or, when cut inside its directory line, the directory; blank lines never hide the volumes after them.""",
 ["crash_points", "inputs"], "every truncation point, every line deletion, duplication, swap, keyword edit and volume renumbering of manifests up to three volumes",
 "Tests parse only valid manifests.",
 [MAN], [("check_eof!, read_param_*, read_path_block, read_hash_param", MAN), ("volume order check", MAN)],
 observe=["Manifest::parse"])

p("C14", "Looking up a path finds the volumes that hold it",
 """For every manifest whose volumes cover consecutive path ranges in duplicity's component-wise order (with files split across volume boundaries), looking up a path
 returns the first and last volume whose inclusive range contains it, and nothing exactly when no volume's range contains it. The root, written as the empty path or ".", comes before every other path.""",
 ["inputs"], "every assignment of range boundaries drawn from names whose byte and path order differ, up to four or five volumes, with and without block numbers, queried with every name, both search directions",
 "Tests query four paths of one fixture, none of which is the last block of a split file or differs in byte and path order.",
 [MAN], [("first_volume_of_path / last_volume_of_path binary searches", MAN)],
 observe=["Manifest::first_volume_of_path, last_volume_of_path"])

p("C15", "Timestamps denote the exact UTC instant they spell",
 """Every duplicity timestamp YYYYMMDDtHHMMSSz, years 0000 to 9999, parses to exactly that UTC instant, for every calendar date and independently of the local time zone, so later timestamps
 compare later. Strings whose date or time fields are missing, non-numeric, of the wrong width or out of range (a 60th second included) are rejected. The same holds for the timestamps in the
 names of backup files, in lower or upper case: a backup and its signatures have the instants that their names spell, and a name with an impossible timestamp is not a backup.""",
 ["inputs", "configurations"], "every day of eight centuries, every second of a day, every out-of-range field value, every one-character corruption, in several time zones",
 "Tests parse a single timestamp.",
 [TF], [("parse_time_str", TF)], observe=["timefmt::parse_time_str", "BackupSet and SignatureChain start_time, end_time"])

p("C16", "Times are shown in the requested zone, with the right form",
 """A displayed time shows month and day in UTC or in the local zone as requested, followed by hour and minute when it falls in the current year of that zone and by two
 spaces and its year otherwise; both displays denote the stored instant, for every year from 1 to 500 million.""",
 ["inputs", "configurations"], "every combination of current instant, displayed instant and time zone around year, month, day and daylight-saving boundaries, with the clock under the checker's control",
 "The tests' outcome depends on the year they run in, and they cover one instant in two zones.",
 [TF], [("PrettyDisplay::fmt", TF), ("into_local_display / into_utc_display", TF)],
 observe=["timefmt::TimeDisplay"])

p("C17", "Listings print one faithful line per entry",
 """Printing a snapshot's files gives exactly one line per entry, in order, with type letter, rwx permissions (including set-uid, set-gid and sticky), owner, group, upper size
 bound, modification time and path in aligned columns, "?" for what is unknown (or for a path that is not UTF-8) and "." for the root, for paths of printable characters. Printing collections shows every chain and every snapshot with its
 kind, time and volume count, and totals that add up. Whatever is printed, if a piece of it cannot be written, printing it fails.""",
 ["inputs"], "every permission value with every type, every combination of known and unknown fields, every collection shape up to a bound, and a failure at every piece written",
 "Display tests only check that printing does not panic, apart from ten permission values.",
 [SIG, COLL, LIB, RAW], [("ModeDisplay, EntryType, Entry, SnapshotEntriesDisplay", SIG), ("Display for Collections/BackupChain/BackupSet/SignatureChain", COLL)],
 observe=["Display of SnapshotEntries, Snapshot, Entry, EntryType, Collections, BackupChain, BackupSet, SignatureChain"])

p("C18", "The local backend shows the directory as it is",
 """The local backend lists every entry of its directory exactly once, by bare name including non-UTF-8 names, and opening a listed name reads exactly that file's bytes; a missing or
 unreadable directory or file, or a failure part-way through listing, is reported as an error when the operation is made. It never modifies the directory.""",
 ["inputs", "fault_sequences"], "every subset of a set of awkward file names, and a listing failure injected at every directory-read call",
 "One test lists one fixture directory, and no failure is injected.",
 [LOC], [("LocalBackend::file_names / FileNameIterator", LOC), ("LocalBackend::open_file", LOC)],
 observe=["LocalBackend::file_names, open_file"])

p("C19", "Chains of any length stay addressable",
 """A chain with any number of snapshots lists all of them, each with its own contents: the number of snapshots, stepping one by one, skipping ahead with any stride and asking the
 remaining length always agree, before and after the iteration ends, for lengths well beyond 256.""",
 ["histories", "inputs"], "every chain length up to a bound past 256 (quick: the lengths around every power of two) and every sequence of next/nth(k)/len steps up to a depth",
 "Fixtures have at most three snapshots per chain.",
 [SIG, LIB], [("Snapshots::next/nth/len", SIG), ("Chain::num_snapshots / PathSnapshot::index", SIG), ("SnapshotsIter", LIB)],
 state=[("num_snapshots, index", "snapshot counters", SIG)],
 observe=["signatures::Chain::snapshots", "Backup::snapshots().entries()"])

p("C20", "Damaged or hostile backup data never crashes the reader",
 """Whatever names a backend lists and whatever bytes its files hold, opening the backup, listing entries, reading manifests, looking up paths and printing the results return a value or an
 error: they never panic, never loop forever, and never allocate memory out of proportion to the data supplied.""",
 ["inputs"], "every single-byte value at every header position (with the checksum repaired), every truncation, every boundary number in every numeric field, of signature archives, gzip streams, manifests and file names",
 "Tests only read well-formed data.",
 [SIG, MAN, COLL, FNM, TF, LIB], [("header parsing and size arithmetic", SIG), ("volume table growth", COLL), ("unescape/from_hex/WordIter", MAN), ("time conversion for display", TF)],
 observe=["all public entry points"])

p("C21", "Torn or damaged signature files are never read as whole",
 """When a signature file was cut off at any byte, or a gzip-compressed one had any of its bytes changed, lost, doubled or replaced by zeros or by older data, or a plain one had a byte of
 a record header changed, listing a snapshot of its chain either reports an error or gives exactly the entries that were recorded: never fewer, altered or additional ones. Snapshots of other
 chains are not affected, and once the file is whole again the same open backup lists everything correctly. Intact files are never rejected.""",
 ["fault_sequences", "crash_points"], "every cut of every signature file of chains of plain and compressed archives, every byte changed, every run of bytes lost, doubled or zeroed, every subset of sectors not written, each followed by a repair",
 "Tests only read whole files.",
 [SIG, LIB], [("end of the archive: EndReader in Chain::add_sigtar", SIG), ("end of the compressed stream: Chain::add_sigfile", SIG), ("errors of tar entries: add_sigtar_to_snapshots", SIG)],
 observe=["signatures::Chain::from_sigchain", "Backup::snapshots().entries()"])

p("C22", "Only what is asked for is read",
 """Opening a backup lists the directory once and opens no file, and looking at its snapshots, chains and collections asks nothing of the backend. Listing a snapshot opens only signature files of its own
 chain, and reading a manifest only that snapshot's manifest, each under a name that the backend listed, exactly as listed; where there is none, nothing is opened. What has been read successfully is not read again.
 Volumes and foreign files are never opened, no file stays open once the call has returned, and the number of files open at once does not grow with the length of a chain.""",
 ["histories", "fault_sequences"], "every sequence of operations up to a depth, every subset of files missing, every backend call failing, on a backend that records what is asked of it",
 "Tests look at answers only, not at what was read to give them.",
 [LIB, SIG, COLL], [("_signature_chain, _manifest: read on demand and cached", LIB), ("Chain::from_sigchain: one file after the other", SIG), ("Collections::from_filenames: names only", COLL)],
 observe=["calls made to Backend::file_names and Backend::open_file by Backup, Snapshot and SnapshotEntries"])

p("C23", "A backup that changes while it is read is never misread",
 """While another process adds a backup to the directory (files growing in place, or written aside and renamed), starts an interrupted one again, removes or replaces snapshots, or stores files under another name, at any
 interleaving of its file operations with the reader's calls, an opened backup keeps showing the snapshots that were listed when it was opened, and each request for entries or a manifest returns exactly what that snapshot
 recorded, or an error (a manifest read while it is being written may end early). Requests that depend only on files nobody touches succeed, what was read once stays readable, and what failed succeeds as soon as the files it
 depends on are whole; a backup opened afterwards shows the directory as it is then.""",
 ["schedules", "crash_points", "histories"], "every interleaving, up to a number of uninterrupted runs, of a writer's file operations with the backend calls of a reader that holds one or two opened backups",
 "Tests read directories that never change.",
 [LIB, SIG, MAN, LOC], [("Backup::new: one listing", LIB), ("_signature_chain, _manifest: caching and retry", LIB), ("Chain::from_sigchain", SIG), ("LocalBackend", LOC)],
 observe=["answers of every opened backup at every point of the schedule, and after it"])

p("C24", "An error says what went wrong",
 """When opening a backup, listing a snapshot or reading a manifest fails because the backend failed, the error has the kind of that failure (for a manifest, as an I/O parse error), and the local backend's own errors carry the
 operating system's error number. A manifest or signature file that is not there gives NotFound. A manifest that cannot be read is rejected with the first problem in it, line by line: an end before a volume is complete is
 UnexpectedEof, a line with another keyword names the keyword expected there, a missing path, hash type or hash and a bad number are named as such, and a volume out of order by the number found (where one line, or the number
 and another line of one volume, have two problems, by either). No error prints as nothing.""",
 ["fault_sequences", "inputs"], "every backend call failing with every kind of error, every set of missing files, every system call of the local backend failing with every error number, and every manifest within an edit bound of a good one",
 "Tests look at a handful of errors, and hardly any that a backend caused.",
 [LIB, SIG, MAN, LOC], [("ParseError and its conversions", MAN), ("read_param_bytes, read_path_block, read_hash_param", MAN), ("not_found", LIB), ("LocalBackend::file_names, open_file", LOC)],
 observe=["io::Error::kind and raw_os_error, ParseError variants and their texts"])

p("C25", "Backups do not influence each other",
 """What a backup, a manifest or a signature listing answers depends on the files of its own backend only: not on what was opened, read, printed or dropped before in the same process (same file names and times, other contents; damaged
 files included), nor on what is read at the same time, in alternation on one thread or on other threads, each with a backup of its own. Two backups on one backend each answer from what they read, when they read it. Nor does it depend on the clock (also one that is behind the backups), the time zone, the language or the working directory, but for the way times are printed.""",
 ["histories", "schedules"], "every merge of the calls of two backups within a depth, every sequence of backups opened and read one after the other, and every interleaving of two threads up to a number of changes at the points where they call their backends",
 "Each test opens one backup, mostly in a directory of other names, and nothing runs at the same time.",
 [LIB, SIG, MAN, LOC], [("Backup: everything read is kept in the object", LIB), ("Chain, UserGroupMap", SIG), ("ManifestParser", MAN), ("LocalBackend", LOC)],
 observe=["entries, manifests, snapshot lists and their printed form, of every backup after every call"])

p("C26", "However a sequence is walked, it is the same sequence",
 """The snapshots of a backup, the entries of a snapshot, the sets and chains of a collection and the names in a local directory give the same items, each once and in one order (any order for names), however they are walked: one by one, skipping
 (nth, skip, step_by), looking ahead, stopping and going on, on a copy made in between, in several walks at once; counting, asking for the last or folding agrees with it, size hints bound what is left, and the end stays the end. A
 snapshot reached by skipping has the same time, kind, volumes, entries and manifest as one reached by walking. Printing entries some of which were taken prints the rest.""",
 ["histories", "inputs"], "every shape of a backup, every combination of presence of a few paths and every small directory, walked by every sequence of steps within a depth and every way to the end",
 "Tests walk from the start to the end, mostly in one loop.",
 [LIB, SIG, COLL, LOC], [("SnapshotsIter: chain_id, sig_id, man_id", LIB), ("SnapshotEntries, SnapshotEntriesDisplay", SIG), ("ChainIter, BackupSetIter", COLL), ("FileNameIterator", LOC)],
 observe=["items of Iterator methods, size_hint, entries and manifest of each snapshot, printed rest"])

p("C27", "From a path in a snapshot to the files that hold it",
 """For a backup written by duplicity (what changed packed into volumes of limited size in path order, files split between volumes, any number of volumes, any listing order), a restore can find its data: for every entry of every snapshot and
 every snapshot of its chain up to that one, the manifest names exactly the volumes from the first to the last that hold a part of the path, the snapshot gives for each of these numbers the listed file of that volume and for a missing
 file nothing, that file opens through the backend, its hash is the one the manifest gives, the block numbers of the first and last of them are those at which the file goes over from one volume to the next, and together they hold all that was recorded of the path; for every listed path at least one snapshot of the chain does.""",
 ["histories", "inputs"], "every history of a few paths over three backups, every way of splitting them into volumes, every set of missing volumes, and hundreds of volumes in several listing orders",
 "Tests look at names, manifests and listings one at a time, on backups of one or a few volumes.",
 [LIB, SIG, MAN, COLL], [("Snapshot: entries, manifest, as_backup_set", LIB), ("first_volume_of_path, last_volume_of_path, volume", MAN), ("BackupSet::volume_path", COLL), ("SnapshotEntries", SIG)],
 observe=["volumes and files named for each path, their contents and hashes"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
