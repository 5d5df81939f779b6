#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os

BC, BR, TR, CL, FM, BH, CW = ("bmaptools/BmapCopy.py", "bmaptools/BmapCreate.py",
    "bmaptools/TransRead.py", "bmaptools/CLI.py", "bmaptools/Filemap.py",
    "bmaptools/BmapHelpers.py", "contrib/bmap_write.py")
P = []

def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "A bmap copy reproduces every mapped block of the image",
  "When a copy with a block map reports success, every byte of every block the map lists is, in the destination, identical to the (decompressed) image's byte at the same offset, whatever the interleaving of reading and writing, the kind of source (local file, standard input, URL, ssh, each compressed or not), the map's format version and block size, and however the operating system splits reads and writes. "
  "A regular-file destination then has exactly the image's size, reads as zeros outside the listed blocks and stays sparse there. "
  "Without faults a copy of an image with its own map does succeed.",
  ["schedules", "inputs", "configurations"],
  "all interleavings of reader, writer, decompressor and network; all images, maps, formats, block sizes; all legal splits of reads and writes",
  "test_api_base copies a few dozen random 4 MiB images under whatever schedule the OS happens to give, always with 4 KiB blocks and full reads; it never sees slow consumers, split reads, other block sizes or ssh/stdin/http sources",
  [BC, TR, CL],
  [("bounded queue between reader thread and writer", "BmapCopy._get_data / BmapCopy.copy"),
   ("range and batch splitting", "BmapCopy._get_block_ranges / _get_batches"),
   ("forward seeking over streams", "TransRead._fake_seek_forward"),
   ("final resize of regular files", "BmapCopy.copy (ftruncate)")],
  ["exit status of 'bmaptool copy'", "destination content, length and allocation"],
  [("batch queue", "batches read but not yet written", "BmapCopy._batch_queue")])

p("C02", "A copy without a bmap reproduces the whole image",
  "When a copy without a block map reports success, the destination begins with exactly the whole (decompressed) image and, if it is a regular file, has exactly its length, whether or not the image size was known in advance and whatever the source kind, the scheduling and the splitting of reads and writes. "
  "Without faults such a copy does succeed.",
  ["schedules", "inputs", "configurations"],
  "all images (including empty ones and sizes that are no multiple of the block or batch size), all source kinds, all interleavings",
  "the tests cover the no-bmap path with a few local uncompressed files only, with full reads and one schedule each",
  [BC, TR, CL],
  [("single synthetic range / endless ranges", "BmapCopy._get_block_ranges"),
   ("size learnt from bytes written", "BmapCopy.copy"), ("end-of-data detection", "BmapCopy._get_data")],
  ["exit status of 'bmaptool copy --nobmap'", "destination content and length"])

p("C03", "Corrupted data or a damaged bmap is never accepted",
  "With verification on, a copy reports success only if the data written for every listed range that carries a checksum matches that checksum, and only if the bmap file (when it carries its own checksum) is unaltered. "
  "Image data damaged in storage, in transit or in decompression, a damaged or torn bmap file, or a bmap that belongs to a different image makes the copy fail, wherever the damage lies.",
  ["inputs", "fault_sequences", "schedules"],
  "every position and pattern of damage in any mapped block or in the bmap, on any read; all sources and schedules",
  "no test feeds corrupted images; test_compat only checks that good and a few crafted bad bmaps behave, never damage placed at arbitrary bytes, read calls or batches",
  [BC],
  [("range checksum accumulated over batches", "BmapCopy._get_data"),
   ("bmap self checksum", "BmapCopy._verify_bmap_checksum"),
   ("mapped block count check", "BmapCopy.copy"), ("size consistency checks", "BmapCopy._parse_bmap / _set_image_size")],
  ["exit status", "destination content compared with the checksums in the map"])

p("C04", "A failing or truncated source never yields a successful copy",
  "If bytes the copy needs cannot be delivered (a read error, memory exhaustion, a truncated or broken compressed stream, a decompressor that fails or is killed, a dropped connection, a failing ssh transfer, a stream that ends early), the copy ends with a failure status. "
  "This holds at whatever byte or operation the failure strikes, with or without a block map, and with verification on or off.",
  ["fault_sequences", "schedules", "crash_points"],
  "every read-side fault at every operation, under every interleaving",
  "no test makes any read, decompressor or connection fail",
  [BC, TR, CL],
  [("reader errors handed over through the queue", "BmapCopy._get_data"),
   ("mapped block count check", "BmapCopy.copy"),
   ("child process handling", "TransRead._open_compressed_file / read / __del__"),
   ("top-level error handling", "CLI.copy_command / CLI.main")],
  ["exit status", "destination content"])

p("C05", "A failing destination never yields a successful copy",
  "If the destination does not take the data (a write, resize, flush or synchronisation that fails, or a device that is full or too small), at whatever point from the first to the last operation, the copy ends with a failure status. "
  "Success is reported only when every mapped byte has been accepted by the destination; writes that are merely accepted in pieces or slowly do not cause failure.",
  ["fault_sequences", "schedules"],
  "every destination-side error at every operation, under every interleaving, on files and block devices",
  "no test makes the destination fail",
  [BC, CL],
  [("error checks around write/ftruncate/flush/fsync", "BmapCopy.copy / sync"),
   ("command error handling", "CLI.copy_command")],
  ["exit status", "what the simulated storage accepted"])

p("C06", "A successful copy survives power loss; a cut-short one can be redone",
  "Once the copy command has exited successfully (or the programming interface's synchronising copy has returned), the destination's mapped data and file size are on stable storage and survive an immediate power loss. "
  "A copy cut short at any point by power loss or by being killed can simply be run again and then gives the correct destination, whatever the first attempt left behind.",
  ["crash_points", "schedules", "fault_sequences"],
  "power loss at any instant during or after the copy, any subset of unsynchronised writes surviving, any schedule",
  "tests cannot cut power; on a running system unsynchronised data reads back fine, so a missing or misplaced flush or sync is invisible to them",
  [BC, CL],
  [("flush then fsync", "BmapCopy.copy / sync"), ("synchronisation before reporting success", "CLI.copy_command"),
   ("truncating open of the destination", "CLI.open_files")],
  ["contents of the simulated stable storage after a crash"])

p("C07", "Copying alters nothing but the mapped blocks of the destination",
  "A copy changes the destination only inside the blocks listed in the block map (inside the image's own extent when there is no map) and never beyond the image's end, so that on a block device every other byte keeps its previous value, whether the copy succeeds, fails or is interrupted. "
  "It never modifies the image, the bmap, a signature or any other existing file. "
  "Without a usable block map and without the explicit no-bmap option, nothing is written to a block device.",
  ["inputs", "fault_sequences", "schedules"],
  "all maps, images, faults and interleavings, also runs that end in failure",
  "the tests only copy to fresh regular files and compare whole content after success; nobody looks at neighbouring bytes of a device or at failed runs",
  [BC, CL],
  [("positioning by block number", "BmapCopy.copy"), ("private mapping of the bmap file", "BmapCopy._verify_bmap_checksum"),
   ("bmap discovery and refusal", "CLI.find_and_open_bmap / copy_command")],
  ["every write reaching the simulated device", "content of all other files"])

p("C08", "A block device is written only while held exclusively",
  "If a destination block device is in exclusive use by someone else (for example mounted) when the copy wants it, the copy fails and the device's content is unchanged; otherwise the copy holds the device exclusively from before the first byte is written until the last one is synchronised, so no other exclusive user gets in meanwhile. "
  "An image whose size is known to exceed the device's capacity is refused before anything is written.",
  ["schedules", "histories", "inputs"],
  "every instant at which another process tries to take or release the device; all sizes",
  "no test uses a block device",
  [CL, BC],
  [("O_EXCL open", "CLI.open_block_device"), ("capacity check", "BmapBdevCopy.__init__")],
  ["exclusive holders and writes of the simulated device", "exit status"])

p("C09", "Copying always terminates and leaves no processes behind",
  "Whatever the interleaving of reader, writer, decompressor, ssh and network, and whatever error or interruption occurs on either side, the copy command finishes (with success or failure) within a bounded number of steps once outside parties stop stalling: it never deadlocks and never spins. "
  "After a successful copy every decompressor or ssh process it started has ended and been reaped, and after a failed one none keeps running.",
  ["schedules", "fault_sequences"],
  "all interleavings and faults, queue full or empty, at any instant; finite stalls of any length",
  "a unit test observes one benign schedule per run and can never conclude that no schedule hangs",
  [BC, TR, CL],
  [("end and error markers in the bounded queue", "BmapCopy._get_data / copy"),
   ("orderly close: stop reader thread, kill and reap children", "TransRead.__del__"),
   ("pipe end-of-file propagation", "TransRead._read_thread")],
  ["step count and deadlock detection in the simulator", "simulated process table"])

p("C10", "Memory and write-back use do not grow with the image",
  "However large the image and however slow the destination, the amount of image data that has been read but not yet written stays below a fixed bound (16 MiB), and no single read asks for more than that. "
  "When writing to a block device, the amount of data written but not yet synchronised also stays below a fixed bound (16 MiB), for images of any size.",
  ["schedules", "inputs"],
  "all relative speeds of reader and writer, all image sizes and range lengths, with and without bmap",
  "the tests use 4 MiB images and do not measure buffering",
  [BC, TR],
  [("bounded queue of batches", "BmapCopy.copy"), ("batch splitting", "BmapCopy._get_batches"),
   ("chunked forward seek", "TransRead._fake_seek_forward"), ("periodic synchronisation", "BmapBdevCopy / BmapCopy.copy")],
  ["bytes read minus bytes written, sizes of reads, dirty bytes, at every simulated step"])

p("C11", "Block-device tuning is best effort and always undone",
  "When the copy to a block device is over (successful, failed, or interrupted while data was being copied), the I/O scheduler and write-back ratio the tool changed have their previous values again; if a value cannot be restored the copy is reported as failed. "
  "If a setting is missing, unreadable, read-only or does not accept the wanted value, the copy goes on and succeeds nevertheless; one that can be changed is changed while data are written. "
  "A setting that already has the wanted value is not written at all.",
  ["fault_sequences", "configurations", "schedules"],
  "all combinations of settings and permissions, and all faults and interrupts during the copy, for whole disks and partitions",
  "no test touches block devices or sysfs",
  [BC], [("context manager saving and restoring", "SysfsChange"), ("tuning around the copy", "BmapBdevCopy.copy")],
  ["simulated sysfs attributes after the run", "write attempts on them", "exit status"])

p("C12", "A signature that does not verify is never ignored",
  "A block map that has a signature (given explicitly, found next to it as .asc or .sig, or built in as clear-signed text) is used for copying only if every signature in it verifies as valid: a bad, unknown, expired, revoked, malformed or unreadable local signature, or an explicitly requested one that cannot be fetched, makes the command fail with nothing written to a block device. "
  "Only the explicit option skips verification. "
  "A validly signed map, detached or clear-signed, is accepted and used.",
  ["inputs", "fault_sequences", "configurations"],
  "all signature states, locations and discovery orders, and faults while finding, fetching, reading and verifying them",
  "the CLI tests' key has expired, so they only see that everything exits with 1; they never exercise faults during discovery or fetching",
  [CL, TR],
  [("signature discovery and verification", "CLI.verify_bmap_signature and helpers"), ("result check", "CLI.report_verification_results")],
  ["exit status", "writes reaching the simulated device", "calls to the (simulated) GPG library"])

p("C13", "A created bmap describes the image exactly",
  "For every image and hole layout and every size from one byte to exbibytes, whichever kernel interface reports it (extent map or data/hole seeking), in however many pieces and at whatever granularity, a successfully created bmap states the right image size, block size, block count and mapped count; its ranges are ascending and disjoint and cover exactly the blocks containing mapped data; and every range checksum and the file's own checksum are right. "
  "Copying the image with that bmap succeeds and reproduces it. "
  "The programming interface does the same with any usual checksum type; creation alters nothing but its output. "
  "If the kernel reports an error, the image cannot be read, or the image lies on ZFS configured without reliable hole reporting, creation fails instead.",
  ["inputs", "configurations", "fault_sequences"],
  "all extent layouts, sizes, block sizes, kernel answers and read faults",
  "the tests use ext4/tmpfs layouts with 4 KiB blocks whose whole extent list fits one kernel answer, on healthy disks",
  [BR, FM, BH],
  [("range enumeration", "Filemap.FilemapFiemap / FilemapSeek"), ("checksums and counters", "BmapCreate.generate"),
   ("fallback between interfaces", "Filemap.filemap"), ("ZFS check", "BmapHelpers.is_compatible_file_system")],
  ["the bmap text produced", "exit status of 'bmaptool create'", "round trip through 'bmaptool copy'"])

p("C14", "An incomplete creation is never mistaken for a usable bmap",
  "If creating a bmap does not complete (crash, power loss or kill at any point, full disk, I/O error, interruption), whatever is left of the output file is either the complete, correct bmap or is rejected by a later copy. "
  "The create command exits successfully only if the complete bmap was handed to the operating system without error, on a file or on standard output.",
  ["crash_points", "fault_sequences"],
  "every crash point, any subset of unsynchronised writes surviving, every output error at every operation",
  "no test interrupts or fails bmap creation",
  [BR, BC, CL],
  [("placeholders filled in last, self checksum written last", "BmapCreate._bmap_file_start / _bmap_file_end"),
   ("bmap validation", "BmapCopy._parse_bmap / _verify_bmap_checksum"), ("final flush", "BmapCreate.generate")],
  ["remaining output file after the simulated crash", "exit status of create and of the later copy"])

p("C15", "Block-map queries partition the file",
  "For any file and any block interval, the mapped ranges and the unmapped ranges reported are each ascending, disjoint, maximal and inside the interval, together cover it exactly once, agree with the per-block queries, and never list a block holding data as unmapped. "
  "This holds for both kernel interfaces, however the kernel splits its answers, and for several iterations and queries side by side. "
  "A kernel error surfaces as an error, never as a silently shortened list.",
  ["inputs", "fault_sequences", "configurations"],
  "all layouts, intervals, kernel answer sizes, granularities and ioctl/lseek faults",
  "test_filemap samples random layouts on the one file system at hand, where one kernel answer always suffices and nothing fails",
  [FM, BH],
  [("walking FIEMAP answers", "Filemap.FilemapFiemap._do_get_mapped_ranges"), ("SEEK_DATA/SEEK_HOLE walking", "Filemap.FilemapSeek._get_ranges")],
  ["ranges returned by the Filemap API"])

p("C16", "Transparent reading delivers exactly the uncompressed bytes",
  "Any sequence of reads and forward seeks through the transparent reader returns exactly the bytes the decompressed content has at those offsets and the reported position is always right, for every source kind and compression type and however pipes and sockets split the data. "
  "End of data is reported only at the true end: a source that breaks off raises an error instead. "
  "A seek a source cannot do is refused with an error, never answered with wrong data.",
  ["histories", "schedules", "fault_sequences"],
  "all operation sequences, schedules, split patterns and faults",
  "the tests only stream whole local files in 1 MiB reads",
  [TR],
  [("read and position tracking", "TransRead.read / tell"), ("forward seek by reading", "TransRead._fake_seek_forward"),
   ("pump thread", "TransRead._read_thread"), ("decompressor selection", "TransRead._open_compressed_file")],
  ["values returned by the TransRead API"])

p("C17", "Progress, logging and clocks never affect the outcome of a copy",
  "Progress indication, the psplash pipe, terminal state, verbosity and the wall clock are decoration: if nothing else fails, the copy succeeds with the same destination content and never blocks, even if the psplash reader is absent, slow or dies at any moment, its pipe disappears, a standard stream is closed, unbuffered, busy or failing, or the clock stops or jumps either way. "
  "Reported percentages never decrease, stay within 0 to 100, and reach 100 on success.",
  ["schedules", "fault_sequences", "configurations"],
  "all behaviours of the psplash reader and of the clock at every step",
  "the tests never use psplash, rarely a terminal, and a real, well-behaved clock",
  [BC, CL],
  [("best-effort non-blocking pipe writes", "BmapCopy._update_progress / set_psplash_pipe"), ("timing report", "CLI.copy_command")],
  ["exit status, destination content", "bytes written to the terminal and the psplash pipe"])

p("C18", "Remote sources are opened patiently and authenticated",
  "A server that takes longer than the initial timeout to answer is waited for and the copy then succeeds; a server that demands credentials gets those of the URL or of the user's netrc, and a missing or malformed netrc never prevents access that needs no credentials. "
  "A server that pauses while sending is waited for just as well. "
  "An ssh URL of either documented form (ssh://user@host:path relative to the home directory, ssh://user@host:port/path) opens exactly the file it names, with the user, port and password it names, whatever characters the path has. "
  "Refused connections, unknown hosts, error answers, wrong credentials and failing ssh logins end in a failure status without anything being written to a block device.",
  ["fault_sequences", "schedules", "configurations"],
  "all delays, connection failures and answers of the server in any order; all credential configurations",
  "the tests only use file: URLs",
  [TR, CL],
  [("two-step timeout", "TransRead._open_url"), ("basic authentication and netrc", "TransRead._open_url"), ("ssh probing", "TransRead._open_url_ssh")],
  ["requests seen by the simulated server", "exit status", "simulated time"])

p("C19", "The standalone writer script copies exactly and durably",
  "The standalone minimal writer, given an uncompressed image and its bmap, exits successfully only if every listed block was written with the image's bytes, and everything it wrote is on stable storage by then; on a matching image the output has the image's size and reads as zeros elsewhere. "
  "A failing read, write or synchronisation ends in a failure status.",
  ["inputs", "fault_sequences", "crash_points"],
  "all images, maps and I/O faults at any operation, power loss after exit",
  "the script has no test at all; the build only parses it",
  [CW], [("block-wise copy, flush and fsync", "contrib/bmap_write.py")],
  ["exit status", "destination content and simulated stable storage"])

p("C20", "What copying and creating report is true",
  "After a successful copy, the reported block map version, block counts, image size, mapped size and mapped percentage are those of the image and map used (exact counts, sizes and percentages within their rounding), the reported copying time covers the copy including the final synchronisation, and the reported speed is the mapped amount over that time; in quiet mode nothing of this is printed. "
  "Every size from one byte to exbibytes and every duration from fractions of a second to days is rendered readably (largest fitting unit; hours, minutes, seconds) and never misstates its value by more than its rounding. "
  "The comments in a created bmap and the warning about an image without holes are true as well.",
  ["inputs", "schedules", "fault_sequences"],
  "all image and map sizes up to exbibytes, all stalls of source and destination",
  "a handful of small sizes and sub-second durations are rendered in tests, and nobody compares them with anything",
  [BH, CL, BR, BC],
  [("unit selection", "BmapHelpers.human_size / human_time"), ("measuring", "CLI.copy_command"), ("comments of the bmap", "BmapCreate._bmap_file_start / _bmap_file_end")],
  ["log messages", "comments in the created bmap", "simulated clock"])

p("C21", "Contradictory command-line options are rejected",
  "Combinations of options that contradict each other (no-bmap with a bmap, a signature with no signature verification, quiet with debug, the bmap itself as image) and names under which an input file (image, bmap or signature, for create the image) would be the output as well are rejected with a failure status, in whatever order they are given, before the destination is opened or created, and nothing else is altered; a signature for which there is no bmap (with no-bmap or when none is found) is rejected without writing to a block device. "
  "Combinations that do not contradict each other are accepted.",
  ["inputs"], "all orders and combinations of options and positions on the command line", "no test passes conflicting options",
  [CL], [("option checks", "CLI.copy_command / CLI.main / CLI.open_files")], ["exit status", "the destination and all other files"])

p("C22", "A contradictory block map is refused, an unfamiliar but valid one is understood",
  "A block map that contradicts itself or the image (block counts, sizes and ranges that do not fit together, ranges beyond the declared end, reversed or missing ranges, a size other than the image's), declares an unsupported major version or an unknown, empty or missing checksum type, or lacks a needed element or number makes the copy fail even if its own checksum is right; nothing is written beyond the end it declares, and with a contradictory header nothing is written to a block device at all. "
  "Comments, white space, attribute quoting, unknown additional elements and attributes, higher minor versions, any usual checksum type and absent range checksums are accepted and the copy is right.",
  ["inputs", "configurations"],
  "all combinations of map contents that a foreign or careless program may produce, with any source, destination and schedule",
  "test_compat copies with a few crafted maps; contradictions are only tried in one place each, and never on a block device",
  [BC, CL],
  [("parsing and consistency checks", "BmapCopy._parse_bmap / _set_image_size"), ("range checks", "BmapCopy._get_block_ranges"),
   ("counting", "BmapCopy.copy"), ("own checksum", "BmapCopy._verify_bmap_checksum")],
  ["exit status", "every byte of the destination"])

p("C23", "Copying again with the same objects is a copy of its own",
  "A program may call copy() of BmapCopy or BmapBdevCopy again, after it succeeded as well as after it reported an error (a failing device, a full disk, an unreadable image, no memory): if the last call succeeds, the destination holds exactly the image, on stable storage if that call synchronised, whatever an earlier call was doing when it failed; with a seekable image and nothing failing every call succeeds. The same goes for a new writer object over the same files after a successful copy.",
  ["inputs", "schedules", "fault_sequences", "histories"],
  "every point at which the earlier call can fail, and every state in which its reader thread can be at that time, during the later call",
  "no test copies twice with one object, and none lets a copy fail half-way",
  [BC], [("reader thread and queue of a copy", "BmapCopy.copy / BmapCopy._get_data"), ("geometry kept between calls", "BmapCopy._set_image_size"),
   ("device settings", "BmapBdevCopy.copy")],
  ["bytes of the destination, cached and on stable storage", "exceptions"])

p("C24", "Every failure is explained as what it is",
  "Whatever makes bmaptool fail (malformed, damaged, unsupported or contradictory block maps, bad signatures, failing, truncated or unreachable sources, failing or full destinations and outputs, missing programs, no memory, contradictory options), it ends with an error message on standard error, and never with an internal error such as TypeError, AttributeError, ValueError or a failed assertion; the programming interface likewise raises only the tool's own errors, operating-system and network errors and MemoryError. "
  "When reading an uncompressed image, writing, synchronising or resizing the destination or writing the created bmap fails, the closing message includes the reason the operating system gave.",
  ["inputs", "fault_sequences", "schedules"],
  "every way in which every part of the tool can fail, at every point",
  "tests only check that some exceptions are raised, hardly which, and only for a few malformed maps",
  [CL, BC, TR, BR],
  [("reporting", "CLI.error_out / CLI.main"), ("parsing of the block map", "BmapCopy._parse_bmap / _get_block_ranges"), ("errors of the reader thread", "BmapCopy.copy")],
  ["exit status", "standard error", "type of the exception"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
