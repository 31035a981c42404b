#!/usr/bin/env python3
"""Writes properties.jsonl.  The properties live here as Python data because
JSON lines are unpleasant to edit by hand."""
import json, os

P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=False):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- storage
p("S01", "A buffer write that returns has stored every byte",
  "When saving an in-memory buffer to a path returns normally - or every checked write of its pieces to a file wrapper does, and closing it reports no failure - the file at that path holds exactly the bytes of the buffer, "
  "whatever short writes, interrupted calls, full-disk or device errors happened on the way. "
  "If any byte could not be stored - including when the operating system only says so while the file is being flushed or closed - "
  "the call raises a file error which names that path (closing a wrapper says so by its result).",
  ["inputs", "fault_sequences"],
  "every buffer (size 0 to several stdio buffers, any content), every state of the destination (absent, shorter, longer, directory, missing parent) and every placement of open/write/close failures, short writes and full-disk points",
  "the tests write to a healthy disk with plenty of room; a failure which only surfaces at close cannot be provoked from a test without a simulated disk",
  ["src/data.cc", "src/data.h", "src/array_data.cc", "src/file.cc", "src/file.h"],
  [("Data::write opens, writes and closes through File", "src/data.cc:Data::write"),
   ("File::close flushes the stdio buffer", "src/file.cc:File::close")],
  [("File::_file", "the stdio stream which may still hold unwritten bytes", "src/file.h")],
  ["Data::write return or FileError", "bytes of the destination file"])

p("S02", "Replacing a file through a temporary is all-or-nothing",
  "While a buffer is being saved through a temporary file the destination holds, at every instant and so also after a process crash at any point, either its complete previous state or the complete new bytes - never a mixture or a truncated file. "
  "If the call returns normally the destination holds the new bytes and the temporary is gone; if it raises, the destination is exactly as it was before the call.",
  ["inputs", "crash_points", "fault_sequences"],
  "every old and new content, every stale temporary, every crash point between two filesystem operations, and every placement of open/write/flush/close/rename failures",
  "needs a crash between two system calls, or a write error which appears late, in the middle of a call; tests can only look before and after",
  ["src/data.cc", "src/data.h", "src/file.cc"],
  [("write to the temporary, then rename over the destination", "src/data.cc:Data::write_via_temp")],
  [("temp / final", "the two directory entries whose order of change is the guarantee", "src/data.cc")],
  ["destination and temporary after return, exception or simulated crash"])

p("S03", "Exact reads deliver the stored bytes or fail",
  "Loading a whole file into a buffer, and reading an exact number of bytes through the checked read of a file wrapper, either deliver exactly the bytes stored in the file (in order, from the current position) or raise an error. "
  "Short reads, interrupted reads, device errors, an unexpectedly early end of file, or a file which shrinks between its size being asked and its bytes being read never yield missing, repeated, stale or invented bytes.",
  ["inputs", "fault_sequences"],
  "every file content and size, every split of a file into exact-length reads, every placement of short reads, EINTR, EIO, early end of file, and of truncation between the size query and the reads",
  "a healthy local disk never returns a short or interrupted read, so the retry and error branches are not reached by tests",
  ["src/array_data.cc", "src/file.cc", "src/filesystem.cc"],
  [("size query followed by a single read", "src/array_data.cc:ArrayData::ArrayData(path)"),
   ("loop with retry", "src/file.cc:File::checked_read")],
  [("done", "how much of the request has been satisfied", "src/file.cc")],
  ["returned buffer compared with the stored bytes", "exception"])

p("S04", "An open file has exactly one owner and is closed exactly once",
  "Moving a file wrapper, by construction or assignment, hands its open handle, its path and its open status (with the error if opening failed) to the target, closes whatever the target had open before, and leaves the source empty; assigning a wrapper to itself changes nothing. "
  "Every handle opened is closed exactly once - by close, by being replaced or by destruction - unless it was explicitly taken out of the wrapper, after which the wrapper is empty and never closes it. "
  "Reads, writes, seeks and position queries always act on the handle which the wrapper owns at that moment, and raise if there is none.",
  ["histories", "fault_sequences"],
  "every sequence of open (all modes, succeeding or failing), move-construct, move-assign, self-assign, read, write, gets, puts, seek, tell, close, take and destroy over several wrappers and several files",
  "tests use one wrapper per scope; the hand-over between two open wrappers and the failed-open cases are never combined",
  ["src/file.cc", "src/file.h"],
  [("move construction and assignment", "src/file.cc:File::operator="), ("take", "src/file.cc:File::take"), ("close and destructor", "src/file.cc:File::close")],
  [("File::_file", "owned stream or null", "src/file.h"), ("File::_path", "path of the owned stream", "src/file.h"), ("File::_open_error", "error of the failed open", "src/file.h")],
  ["file contents and open-handle table after every step"])

p("S05", "Filesystem operations do exactly what they say or report an error",
  "Each filesystem operation (existence and type queries, sizes, link counts, create directory/directories, hard and symbolic links, copy, copy with and without overwrite, rename, remove, remove-all, listing and recursive listing, working directory, free space, resolving of paths) returns what a reference model of the directory tree gives and changes the tree only as that model does, or reports an error - by exception, or through the error code for the variants which take one, which then never throw. "
  "A copy which does not ask for overwriting never changes an existing destination, a copy which succeeds leaves identical bytes, and a listing which ends normally has produced every entry exactly once whatever order the disk returns them in.",
  ["histories", "fault_sequences"],
  "every history of operations over a small tree with files, directories, hard links and symbolic links, every enumeration order, and every placement of I/O errors in the underlying calls",
  "tests exercise each call once on a healthy disk in one enumeration order; error returns in the middle of an operation need an injected fault",
  ["src/filesystem.cc", "src/filesystem.h"],
  [("wrappers over the filesystem library", "src/filesystem.cc"), ("directory iterators", "src/filesystem.cc:directory_iterator")],
  [("directory tree", "names, types, contents, link groups", "simulated disk")],
  ["return values, exceptions, error codes and the whole tree after each step"])

p("S06", "A scope guard runs its action exactly once on every exit path",
  "The action of a scope guard runs exactly once, when the last scope holding the guard is left, whether normally or by an exception raised at any point after the guard was made. "
  "It does not run if the guard was cancelled, and moving a guard moves the responsibility (including whether it has been cancelled) without running the action.",
  ["histories", "fault_sequences"],
  "every nesting and sequence of make, move, cancel and leave, with an exception injected at any step",
  "the tests leave scopes normally and once by exception; they do not combine cancelling, moving and failing",
  ["src/scope_guard.h"],
  [("destructor runs the action unless cancelled", "src/scope_guard.h:~ScopeGuard"), ("move constructor", "src/scope_guard.h:ScopeGuard(ScopeGuard&&)")],
  [("_cancelled", "whether the action must not run", "src/scope_guard.h")],
  ["log of actions run"])

# ---------------------------------------------------------------- threads
p("T01", "Concurrent transfer-function lookups match sequential ones",
  "Any number of threads may ask one transfer function object for its floating-point and integer tables, with the same or different ranges, bit depths and directions, at the same time: each gets a table of 2^depth entries holding the values of the function over that range (times the scale and rounded, for integers), the same as from a fresh object asked only for that table, and no access is a data race or a deadlock. "
  "A table once handed out stays at the same place with the same values for as long as the object lives, whatever is asked of the object afterwards, and whether one was built first as another or not.",
  ["schedules", "histories"],
  "every interleaving (at the level of individual memory accesses) of up to four threads making up to six table requests each on shared objects of every transfer function kind",
  "a test cannot choose the interleaving; the window between looking in the cache and filling it is a few instructions wide",
  ["src/transfer_function.cc", "src/transfer_function.h", "src/gamma_transfer_function.cc", "src/modified_gamma_transfer_function.cc", "src/s_gamut3_transfer_function.cc", "src/identity_transfer_function.cc"],
  [("mutex round the cache lookup and fill", "src/transfer_function.cc:double_lut, int_lut")],
  [("_double_luts / _int_luts", "cached tables", "src/transfer_function.h"), ("_mutex", "guards the caches", "src/transfer_function.h")],
  ["tables returned, addresses, happens-before graph of instrumented accesses"])

p("T02", "A failed table build does not spoil the transfer function",
  "If building a transfer-function table fails part-way for lack of memory the request raises, and the object afterwards behaves as if that request had not been made: later requests for the same or any other table, by this or any other thread, return complete and correct tables and do not block.",
  ["fault_sequences", "histories"],
  "every history of table requests with memory allocation failing at any allocation of any request",
  "needs an allocation failure at a chosen point inside the request",
  ["src/transfer_function.cc", "src/transfer_function.h"],
  [("cache fill", "src/transfer_function.cc:double_lut, int_lut")],
  [("_double_luts / _int_luts", "cached tables, must not keep a half-made entry", "src/transfer_function.h")],
  ["tables returned after the failed request"])

p("T03", "Preset colour conversions are built once and shared safely",
  "The preset colour conversions may be first used by several threads at the same time: every thread gets a reference to the same fully built object, equal to what a single-threaded program gets, and no access is a data race or a deadlock. "
  "If building a preset fails for lack of memory the request raises and a later request succeeds with the correct object.",
  ["schedules", "fault_sequences"],
  "every interleaving of up to four threads making first use of the presets in any order, with an allocation failure at any point of any first use",
  "first use happens once per process; a test cannot choose the interleaving or fail an allocation inside it",
  ["src/colour_conversion.cc", "src/colour_conversion.h", "src/chromaticity.cc"],
  [("function-local statics", "src/colour_conversion.cc")],
  [("the presets", "process-wide shared objects", "src/colour_conversion.cc")],
  ["address and value of every preset seen by every thread"])

# ---------------------------------------------------------------- clock
p("C01", "The current local time denotes the instant at which it was taken",
  "A timestamp made for the current time denotes, when converted to UTC, an instant between the start and the end of the call (in whole seconds), and carries the UTC offset which the configured time zone has at that instant - also when the clock ticks, jumps or crosses a daylight-saving change during the call, and when several threads take timestamps at the same time. A timestamp made from a date and time which the caller has in local time keeps these, and carries an offset which the zone had during the call.",
  ["schedules", "inputs", "fault_sequences"],
  "every time zone rule, every instant (biased to daylight-saving changes, midnights, month and year ends), every tick or jump of the clock between two readings, every interleaving of up to three threads",
  "the machine's clock and zone cannot be steered by a test, and the window between two clock readings is nanoseconds wide",
  ["src/local_time.cc", "src/local_time.h", "src/utc_offset.cc"],
  [("default construction reads the clock and the zone", "src/local_time.cc:LocalTime::LocalTime()"), ("zone lookup", "src/local_time.cc:set_local_time_zone")],
  [("_offset and broken-down fields", "must belong to one instant", "src/local_time.h")],
  ["the timestamp compared with the simulated clock"])

p("C02", "Recorded timestamps keep their instant and their order",
  "Writing a timestamp as text with its zone and reading it back gives the same instant and the same UTC offset, for every offset in use anywhere in the world, and a fraction of a second written with any number of digits is read to the millisecond (further digits are cut off); text which is cut off within a field, lacks a separator or has an offset beyond -12 or +14 hours or 59 minutes is refused with an exception. "
  "Any two timestamps, whatever their zones, compare (before, after, equal) as the instants they denote do, and adding days, minutes, months or a duration moves the denoted date and time by exactly that amount.",
  ["histories", "inputs"],
  "every history of timestamps taken from a simulated clock which runs, jumps and changes zone (offsets from -12:00 to +14:00 including those with minutes), stored as text, read back after a restart, shifted and compared pairwise",
  "the tests compare a few fixed pairs; the failing combinations need particular minutes in particular zones",
  ["src/local_time.cc", "src/local_time.h", "src/utc_offset.cc", "src/utc_offset.h"],
  [("text form and parser", "src/local_time.cc:as_string, LocalTime(string)"), ("comparison", "src/local_time.cc:operator<, operator>, operator=="), ("arithmetic", "src/local_time.cc:add_days, add_minutes, add_months, add")],
  [("_offset", "zone of the stamp", "src/local_time.h")],
  ["comparison results against simulated instants", "text round trip"])

# ---------------------------------------------------------------- packages
p("D01", "A package whose XML was written without error is complete and true",
  "When writing the XML of a package returns normally, the directory holds an asset map, a packing list and every composition, all well formed, such that: each asset in the package is listed once with the path of a file that exists and with the size and digest of the bytes actually stored there, and reading the package back gives the same compositions with every reference resolved and no notes. "
  "If any of these files could not be written in full, the call raises.",
  ["inputs", "configurations", "fault_sequences"],
  "every package (Interop and SMPTE, one to three compositions, reels with picture, sound, text with fonts, shared assets) and every placement of open/write/flush/close failures, short writes and full-disk points during the call",
  "the tests write to a healthy disk; an error reported only when the XML file is flushed needs an injected fault",
  ["src/dcp.cc", "src/cpl.cc", "src/pkl.cc", "src/asset_map.cc", "src/asset.cc", "src/reel_file_asset.cc", "src/interop_text_asset.cc"],
  [("write order and hashing", "src/dcp.cc:DCP::write_xml"), ("PKL and asset map writers", "src/pkl.cc, src/asset_map.cc")],
  [("asset sizes and digests", "what the packing list promises about the files", "src/pkl.h")],
  ["bytes in the directory after a normal return", "DCP::read result and notes", "exception"])

p("D02", "A crash while writing a package never leaves a false package",
  "If the process dies at any point while the XML of a package is being written, into a fresh directory or over an older version, a later reader either fails with an error (or reports it through its notes) or sees compositions each of which is, as a whole, the old version or the new version - never a partial or mixed one. "
  "Writing the XML again after the crash produces a good package.",
  ["crash_points", "histories"],
  "every crash point between two filesystem operations of the call and every fraction of a write reaching the disk, for fresh and overwritten packages",
  "needs a crash between two system calls in the middle of the call followed by a restart",
  ["src/dcp.cc", "src/cpl.cc", "src/pkl.cc", "src/asset_map.cc"],
  [("write order: compositions, packing list, asset map, volume index", "src/dcp.cc:DCP::write_xml")],
  [("files of the package", "which version each is", "simulated disk")],
  ["DCP::read after restart on the crash image"])

p("D03", "Combining packages loses nothing and leaves its inputs alone",
  "Combining packages never changes any file of any input, whatever fails. "
  "When it returns normally the output holds every composition and every asset of every input, with identical content, each listed once at a path which exists with its true size and digest, with the issuer, creator, date and annotation asked for, so that reading the output resolves every reference - also when file names collide, when inputs share assets, and when the disk refuses hard links. "
  "If something could not be stored, the call raises.",
  ["inputs", "configurations", "fault_sequences", "crash_points"],
  "every set of one to three input packages with shared and clashing assets and names, on disks which allow or refuse hard links, and every placement of I/O errors and crashes",
  "the tests combine a few fixed packages on a healthy local disk where hard links always work",
  ["src/combine.cc", "src/dcp.cc", "src/asset_map.cc", "src/pkl.cc", "src/filesystem.cc"],
  [("link with fallback to copy", "src/combine.cc"), ("unique naming", "src/combine.cc")],
  [("input directories", "must be byte-identical afterwards", "simulated disk")],
  ["input trees before and after", "output package read back"])

p("D04", "Damage to a stored package never passes verification",
  "If a stored package is damaged - a byte changed or cut off anywhere in a composition, picture or sound file, a text asset emptied, an XML text asset, packing list or asset map cut short within its document, any listed file missing, or two of its compositions, pictures, sounds or texts exchanged - or if an I/O error keeps such a composition, picture, sound or XML file from being read, then verifying it either raises or reports at least one error which it does not report for the undamaged package. "
  "Verifying the undamaged package on a healthy disk reports no digest, size, missing-file or unreadable-file error, and gives the same notes whatever order the disk lists files in.",
  ["fault_sequences", "inputs"],
  "every byte position and kind of damage in every asset of generated packages, with I/O errors at any point of the verification",
  "the tests damage a few fixed positions; they cannot fail reads in the middle of the verification",
  ["src/verify.cc", "src/dcp.cc", "src/pkl.cc", "src/asset.cc", "src/util.cc"],
  [("digest comparison", "src/verify.cc:verify_asset"), ("digest of a file", "src/util.cc:make_digest")],
  [("packing-list digest", "what the file must hash to", "src/pkl.h")],
  ["VerificationNotes and exceptions"])

p("D05", "Reading, searching and verifying never change a package",
  "Opening, reading, comparing, searching for and verifying packages perform no change of any kind on the disk - no file or directory is created, modified, renamed, linked or removed - even when the package is damaged or incomplete and when I/O errors happen on the way.",
  ["inputs", "fault_sequences"],
  "every generated package, intact or damaged, with I/O errors at any point of the operation",
  "a test would have to compare the whole disk after each call and inject errors in the call",
  ["src/dcp.cc", "src/search.cc", "src/verify.cc", "src/asset_factory.cc", "src/text_asset.cc"],
  [("DCP::read", "src/dcp.cc:DCP::read"), ("find_potential_dcps", "src/search.cc"), ("verify", "src/verify.cc:dcp::verify")],
  [("directory tree", "must be identical", "simulated disk")],
  ["whole-disk snapshot before and after; every attempted change"])

p("D06", "Documents are written in full or the failure is reported",
  "When writing a string to a file, a key delivery message to a file, a packing list, asset map or composition to a file, or an Interop text asset with its images and fonts, returns normally, each file written holds the complete document, byte for byte what the document's text form is. "
  "If any byte could not be stored - including when this only shows up while flushing or closing - the call raises. "
  "A packing list, asset map or composition which is read and written again is the same document, byte for byte.",
  ["inputs", "fault_sequences"],
  "every document and every placement of open/write/flush/close failures, short writes and full-disk points",
  "the tests write to a healthy disk with plenty of room",
  ["src/util.cc", "src/encrypted_kdm.cc", "src/interop_text_asset.cc", "src/text_image.cc", "src/pkl.cc", "src/asset_map.cc", "src/cpl.cc"],
  [("write_string_to_file", "src/util.cc"), ("EncryptedKDM::as_xml(path)", "src/encrypted_kdm.cc"), ("InteropTextAsset::write", "src/interop_text_asset.cc")],
  [("stdio and XML library buffers", "bytes not yet on disk", "libc, libxml2")],
  ["file bytes after normal return", "exception"])

p("D07", "Text and list loading and file digests are exact or fail",
  "Reading a file into a string, loading the language-tag and rating lists, and computing the digest of a file either work on exactly the bytes stored in the file or raise an error; they never succeed with a part of the file because of a short, interrupted or failing read. "
  "A maximum size given by the caller is respected, and digest progress never runs backwards or past the end.",
  ["inputs", "fault_sequences"],
  "every file size (including around the internal buffer sizes), every placement of short reads, EINTR and EIO",
  "a healthy disk does not return read errors in the middle of a file",
  ["src/util.cc", "src/language_tag.cc", "src/rating.cc"],
  [("file_to_string", "src/util.cc"), ("make_digest", "src/util.cc"), ("load_language_tag_lists", "src/language_tag.cc"), ("load_rating_list", "src/rating.cc")],
  [("lists", "process-wide tables", "src/language_tag.cc, src/rating.cc")],
  ["returned strings, digests and lists", "exception"])

p("D08", "Every reachable package is found despite unreadable neighbours",
  "Searching a directory tree for packages returns, each exactly once and whatever order the disk lists directories in, every directory which holds an asset map and is not inside another such directory. "
  "A directory which cannot be read hides only what lies below it; it neither aborts the search nor hides its siblings.",
  ["inputs", "fault_sequences", "configurations"],
  "every tree of directories with asset maps (both names) at any depth, every listing order, and errors when opening any directory below the root",
  "the tests have no unreadable directories and see one listing order",
  ["src/search.cc"],
  [("recursive search with a catch at each level", "src/search.cc:find_potential_dcps")],
  [("tree", "directories with asset maps", "simulated disk")],
  ["returned list as a set against the model"])

p("D09", "Making a certificate chain leaves no trace behind",
  "Creating a certificate chain, whether it succeeds or fails at any step (a command which fails, a file which cannot be read, a full disk), leaves the process in the working directory it started in, and leaves no temporary file or directory - in particular no private key - on the disk.",
  ["fault_sequences", "crash_points"],
  "failure of each external command and of each filesystem operation of the creation",
  "needs failures in the middle of the creation",
  ["src/certificate_chain.cc"],
  [("temporary directory and change of working directory", "src/certificate_chain.cc:CertificateChain::CertificateChain")],
  [("working directory, temporary directory", "process and disk state to be restored", "src/certificate_chain.cc")],
  ["working directory and temporary files afterwards"])

p("D10", "Operations do not leak open files",
  "Every library operation which opens files - loading, saving, digesting, reading and writing packages, reading and writing assets, verifying, combining - has closed every file and directory it opened once the objects involved are gone, whether it returned normally or raised because of a fault at any point.",
  ["fault_sequences", "histories"],
  "every operation with a fault at any of its I/O calls or allocations",
  "tests do not count open handles and do not reach the error paths",
  ["src/file.cc", "src/data.cc", "src/array_data.cc", "src/util.cc", "src/dcp.cc", "src/combine.cc", "src/mxf.cc", "src/asset_reader.h"],
  [("RAII file wrapper", "src/file.cc"), ("asset readers and writers", "src/asset_reader.h, src/asset_writer.cc")],
  [("open-handle table", "must return to its former state", "simulated kernel")],
  ["open-handle table before and after"])

p("D11", "A verification report is complete",
  "When writing the report of verified packages as text or as HTML returns normally, the file holds the whole report: every composition of the packages with its reels and what they are made of, and every note, each once and in order, and someone reading it - as text, or as a browser shows it - sees each text and value as it is, whatever characters it has. "
  "If any part of it could not be stored - including when this only shows up while flushing or closing - the call raises.",
  ["inputs", "histories", "fault_sequences"],
  "every set of packages and notes, and every placement of failures and short writes while the report is written",
  "the tests write reports to a healthy disk and compare one of them",
  ["src/verify_report.cc", "src/stream_formatter.h", "src/text_formatter.cc", "src/html_formatter.cc"],
  [("report written through a buffered file and closed at the end", "src/stream_formatter.h:StreamFormatter"), ("notes sorted by composition", "src/verify_report.cc:verify_report")],
  [("report file", "may be incomplete", "disk")],
  ["bytes of the report against those of an undisturbed one, notes and compositions looked for in it"])

p("D12", "A cancelled operation leaves nothing wrong behind",
  "When a progress, stage or note callback given to verifying, comparing or digesting raises, the operation stops and passes that exception on; nothing on the disk has changed and no file is left open. "
  "The same operation tried again afterwards, with the same objects where it has any, gives what it would have given had it not been cancelled before.",
  ["inputs", "histories", "fault_sequences"],
  "every call of a callback at which it may raise, one after another on the same objects, and I/O faults besides",
  "no test has a callback which raises",
  ["src/verify.cc", "src/util.cc", "src/asset.cc", "src/dcp.cc", "src/mono_j2k_picture_asset.cc", "src/sound_asset.cc"],
  [("digest kept in the asset once worked out", "src/asset.cc:Asset::hash"), ("handlers which turn exceptions into notes", "src/verify.cc")],
  [("stored digest, open files", "must be as if the operation had not begun", "src/asset.cc:_hash")],
  ["type and identity of the exception, disk before and after, open-handle table, result of a further try"])

p("D13", "Damaged documents never crash the library or lead it astray",
  "Whatever the XML documents of a package or key message hold - values out of range, missing, repeated, renamed or exchanged elements, references to things of another kind, truncation - reading, verifying and reporting, comparing, combining, writing again or decrypting either returns or raises an exception derived from std::exception: it never crashes, hangs or writes beyond its memory. "
  "Only what lies where the caller asked for output is changed on the disk, whatever names and paths the documents give, and no file is left open.",
  ["inputs", "fault_sequences"],
  "every package or key message, one to three pieces of damage in its documents, and each of eight operations on it",
  "tests read documents which are right, or wrong in one way for which an error is expected",
  ["src/verify.cc", "src/dcp.cc", "src/cpl.cc", "src/pkl.cc", "src/asset_map.cc", "src/reel.cc", "src/reel_asset.cc", "src/combine.cc", "src/interop_text_asset.cc", "src/smpte_text_asset.cc", "src/text_asset.cc", "src/encrypted_kdm.cc", "src/decrypted_kdm.cc", "src/types.cc"],
  [("references resolved by identifier, then cast to the kind expected", "src/reel_file_asset.h:asset_of_type"), ("output paths made of names in the input", "src/combine.cc")],
  [("documents on the disk", "hostile input", "package directory")],
  ["normal return or exception, death of the process, disk before and after, open-handle table"])

p("D14", "A supplemental package is resolved by its originals and by nothing else",
  "A package whose compositions refer to assets of other packages lists its own files only, whether or not it has been resolved before it is written; reading it names each reference it cannot follow itself, once, and leaves just these unresolved. "
  "Resolving it with the assets of its originals, in any order, or finding it among the directories of all of them, ties every reference to the right file and changes nothing else in its compositions; combining it with its originals gives a complete package. "
  "If something could not be read or written the operation raises or says so, and files of the other packages never change.",
  ["inputs", "configurations", "fault_sequences"],
  "supplemental packages of one or two originals (SMPTE and Interop, directories whose names begin alike or which lie within each other), reading, writing again and combining, and every placement of up to three I/O faults",
  "the tests resolve few supplemental packages and write none after resolving it",
  ["src/dcp.cc", "src/ref.cc", "src/reel.cc", "src/cpl.cc", "src/asset.cc", "src/interop_text_asset.cc", "src/combine.cc", "src/util.cc"],
  [("resolve_refs", "src/dcp.cc, src/reel.cc, src/ref.cc:resolve"), ("what is within the package", "src/util.cc:relative_to_root")],
  [("Ref::_asset", "the asset a reference is tied to", "src/ref.h")],
  ["compositions, references and notes after reading and resolving", "asset map and packing list", "other files"])

p("L01", "What is written and understood does not depend on the locale",
  "Whatever locale the process, the thread or the C++ streams have, and even if it changes between any two calls, the library writes the same bytes and understands the same input in the same way: packages and their compositions, SMPTE and Interop text, key messages, timestamps, numbers, and names in any case (kinds of content, alignments, identities, sound channels, languages). "
  "Messages meant for people are exempt.",
  ["inputs", "configurations", "histories"],
  "histories of writing, reading, verifying and converting with each step in one of seven other locales: decimal commas, grouped digits, Turkish letters in one and in several bytes, set for the process, the thread or the streams",
  "the tests run in one locale",
  ["src/content_kind.cc", "src/h_align.cc", "src/v_align.cc", "src/local_time.cc", "src/raw_convert.cc", "src/language_tag.cc", "src/main_sound_configuration.cc", "src/text_asset.cc", "src/dcp_time.cc", "src/types.cc"],
  [("conversion of numbers and names", "src/raw_convert.cc, src/content_kind.cc:from_name, src/main_sound_configuration.cc:mca_id_to_channel")],
  [("the locale", "of the process, the thread and the streams", "libc, libstdc++")],
  ["files, values, outcomes in another locale against those in the C locale"])

p("X01", "A command-line tool which ends with success has done its whole job",
  "When dcpkdm, dcpthumb, dcpdumpsub, dcpdumpimage, dcpdecryptmxf, dcpdiff or dcpverify ends with status 0, what it printed and every file it wrote is complete and describes all of its inputs - exactly as on a healthy disk - and dcpdiff and dcpverify do so only if the packages agree in all that they say and show or no error was found; dcpinfo and dcprecover may instead say on the way what went wrong. "
  "If something needed could not be read or written the tool ends otherwise, and none but dcprecover changes its inputs or anything else than its output, whatever names the inputs give.",
  ["inputs", "configurations", "fault_sequences"],
  "inputs of nine tools (key messages, certificates, text, picture, sound and Atmos assets with and without encryption, packages alike and different), and every placement of up to three I/O faults while the tool runs",
  "the tests run few of the tools, and all on a healthy disk",
  ["tools/dcpkdm.cc", "tools/dcpdumpsub.cc", "tools/dcpdecryptmxf.cc", "tools/dcpdiff.cc", "tools/dcpverify.cc", "tools/dcpinfo.cc", "tools/dcprecover.cc", "tools/dcpthumb.cc", "tools/dcpdumpimage.cc", "tools/common.cc"],
  [("exit status", "tools/*.cc:main"), ("output files written after the work", "tools/dcpdumpsub.cc, tools/dcpverify.cc")],
  [("exit status, standard output", "what scripts rely on", "tools/*.cc:main")],
  ["exit status, standard output and error, files before and after"])

# ---------------------------------------------------------------- assets
p("M01", "A finalised asset holds every frame that was accepted",
  "When a picture (2D or 3D, JPEG2000 or MPEG2), sound, Atmos or SMPTE text asset has been written and finalised without error, what is read back is exactly what was passed in, in order and byte for byte, its duration equals the number of frames, and the offset, size and hash returned for each picture frame describe where and what was stored. "
  "If storing a frame, or finalising, fails - including for lack of disk space or of file handles - the call raises, as the dedicated error type where one exists, and a failed frame is not counted as written. "
  "Reading a stored frame gives its exact bytes or raises.",
  ["inputs", "histories", "fault_sequences"],
  "every sequence of frames with and without encryption, Interop and SMPTE, and every placement of I/O failures in open, write, seek and close",
  "the tests write to a healthy disk and do not run out of space or handles",
  ["src/asset_writer.cc", "src/mono_j2k_picture_asset_writer.cc", "src/stereo_j2k_picture_asset_writer.cc", "src/j2k_picture_asset_writer_common.cc", "src/sound_asset_writer.cc", "src/atmos_asset_writer.cc"],
  [("write, finalize", "src/*_asset_writer.cc"), ("error translation", "src/exceptions.cc:throw_from_asdcplib")],
  [("_frames_written, _started, _finalized", "progress of the writer", "src/asset_writer.h")],
  ["frames read back", "frame info", "exception type"])

p("M02", "An interrupted picture asset can be resumed without loss",
  "If the process dies at any point while a picture asset is being written, a new writer opened on the same file in overwrite mode by an asset with the same identity (and key, if encrypted), which is given the first frame again, told of the other frames already stored by means of their recorded frame information and then given the remaining frames, produces an asset whose frames, duration and frame information are the same as if it had never been interrupted.",
  ["crash_points", "histories"],
  "every crash point while writing up to a dozen frames, 2D and 3D, and a second crash during the resumed write",
  "needs a crash in the middle of a write, a restart on the partial file and a second write",
  ["src/mono_j2k_picture_asset_writer.cc", "src/stereo_j2k_picture_asset_writer.cc", "src/j2k_picture_asset_writer.cc", "src/frame_info.h"],
  [("fake_write", "src/mono_j2k_picture_asset_writer.cc:fake_write"), ("overwrite mode", "src/j2k_picture_asset_writer_common.cc")],
  [("frame info recorded by the caller", "offset, size and hash of each stored frame", "src/frame_info.h")],
  ["frames read back after the resumed write"])

p("M03", "Sound does not depend on how it was cut into pieces",
  "The sound stored in an asset depends only on the samples of each channel in order, not on how the caller cut them into write calls: any cutting gives the same frames, padded with silence to a whole frame at the end and on channels which were not supplied. "
  "The synchronisation signal, when asked for, is continuous across frame boundaries and decodes, at every rate which has one, to the asset's whole identity and a frame count which increases by one per frame.",
  ["schedules", "histories", "inputs"],
  "every cutting of a stream of samples (floating-point or integer, mixed) into write calls, frame rates, channel counts and with or without the synchronisation signal",
  "the tests use one or two fixed chunk sizes",
  ["src/sound_asset_writer.cc", "src/sound_asset_writer.h", "src/fsk.cc", "src/bitstream.cc"],
  [("frame buffer", "src/sound_asset_writer.h:do_write"), ("sync packets", "src/sound_asset_writer.cc:create_sync_packets")],
  [("_frame_buffer_offset, _sync_packet, _fsk", "carry-over between calls", "src/sound_asset_writer.h")],
  ["frames read back", "decoded synchronisation signal"])

# ---------------------------------------------------------------- KDM
p("K01", "A damaged or foreign key message never yields a wrong key",
  "Decrypting a key delivery message with the recipient's key gives exactly the keys, key identifiers and validity period which went in. "
  "If the stored message has been changed anywhere, or cut short, or is decrypted with another key, the reader either raises or gives only keys, with their identifiers and validity period, which went in - never a different or additional one.",
  ["fault_sequences", "inputs"],
  "every set of keys, SMPTE and Interop forms, every single- or multi-byte change and truncation of the stored message",
  "the tests decrypt a few intact messages",
  ["src/encrypted_kdm.cc", "src/decrypted_kdm.cc", "src/decrypted_kdm_key.cc", "src/key.cc"],
  [("encrypt and decrypt of the key blocks", "src/decrypted_kdm.cc"), ("parser", "src/encrypted_kdm.cc")],
  [("stored message", "bytes on disk", "simulated disk")],
  ["decrypted keys against the originals"])

# ---------------------------------------------------------------- not applicable to this technique
NOTE = "a plain function of its arguments"

p("K02", "A package opens with the keys it was given, and with these alone",
  "After any sequence of reading a package, giving it key messages and resolving its references to assets which are elsewhere, every asset which is not encrypted, or whose key has been given to a composition which uses it - before or after the asset was found - shows exactly what was stored, and no other encrypted asset does. "
  "If a step fails and is repeated, the result is as if it had not failed. "
  "What the package and its compositions say about having encrypted assets is true, and a key message can be made for any composition which has one.",
  ["histories", "inputs", "fault_sequences"],
  "packages with any mixture of encrypted and plain pictures, sound, Atmos and all four kinds of text, sequences of up to seven steps in any order, messages with any subset of the keys, and placements of up to two read errors in each step",
  "the tests give one complete message to a package which has everything, on a healthy disk",
  ["src/reel.cc", "src/cpl.cc", "src/dcp.cc", "src/mxf.cc", "src/smpte_text_asset.cc", "src/decrypted_kdm.cc", "src/reel_file_asset.h", "src/decryption_context.cc"],
  [("giving keys to assets", "src/reel.cc:give_kdm_to_assets"), ("reading encrypted text when its key arrives", "src/smpte_text_asset.cc:set_key")],
  [("Reel::_kdms", "messages kept for assets which are not there yet", "src/reel.h"), ("MXF::_key", "key of an asset", "src/mxf.h")],
  ["content of each asset, exceptions, any_encrypted() and all_encrypted()"])
p("N01", "Colour transforms are accurate and invertible",
  "Converting between RGB and XYZ with any preset conversion, and there and back, gives the values of the published formulae within rounding.",
  ["inputs"], "every pixel value and conversion", "sampled values only",
  ["src/rgb_xyz.cc", "src/colour_conversion.cc"], [("matrix and table arithmetic", "src/rgb_xyz.cc")])
p("N02", "Transfer-function tables have the values of their formulae",
  "Every entry of every transfer-function table equals the published formula within rounding and the tables are monotonic.",
  ["inputs"], "every parameter, bit depth and index", "sampled values only",
  ["src/gamma_transfer_function.cc", "src/modified_gamma_transfer_function.cc", "src/s_gamut3_transfer_function.cc"], [("table builders", "src/*_transfer_function.cc")])
p("N03", "Enumerations survive conversion to text and back",
  "Content kinds, alignments, markers, channels, standards and similar values convert to text and back unchanged, and unknown text is rejected.",
  ["inputs"], "every value and every string", "some values only",
  ["src/content_kind.cc", "src/h_align.cc", "src/v_align.cc", "src/types.cc"], [("string conversions", "src/types.cc")])
p("N04", "File names made from a name format are clean and unambiguous",
  "A file name built from a name format contains only permitted characters, substitutes every placeholder and keeps the suffix.",
  ["inputs"], "every format and set of values", "some values only",
  ["src/name_format.cc"], [("NameFormat::get", "src/name_format.cc")])
p("N05", "Time codes convert between frame rates without drift",
  "Subtitle times convert to and from frames and text without loss and compare, add and subtract as rational seconds do.",
  ["inputs"], "every time and rate", "some values only",
  ["src/dcp_time.cc"], [("Time arithmetic", "src/dcp_time.cc")])
p("N06", "Language tags parse and print losslessly",
  "A well-formed language tag parses to its subtags and prints as it was; a malformed one is rejected.",
  ["inputs"], "every string", "some values only",
  ["src/language_tag.cc"], [("LanguageTag parser", "src/language_tag.cc")])
p("N07", "Compressed pictures decode to what was encoded within the rate limit",
  "Encoding an image to JPEG 2000 gives a codestream within the bandwidth limit which decodes to the image within the expected error.",
  ["inputs"], "every image and bit rate", "some images only",
  ["src/j2k_transcode.cc", "src/openjpeg_image.cc"], [("codec calls", "src/j2k_transcode.cc")])
p("N08", "Generated identifiers and keys are unique and well formed",
  "Every identifier and content key generated is well formed and differs from all others generated before.",
  ["histories"], "every sequence of generations", "collisions cannot be observed",
  ["src/util.cc", "src/key.cc"], [("make_uuid", "src/util.cc"), ("Key::Key", "src/key.cc")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
