#!/usr/bin/env python3
# Generates properties.jsonl (kept as a script so the long lines stay reviewable).
import json, os
P = "scutiger-core/src/pktline.rs"; E = "scutiger-core/src/errors.rs"
PR = "scutiger-lfs/src/processor.rs"; BK = "scutiger-lfs/src/backend.rs"; LO = "scutiger-lfs/src/backend/local.rs"
TR = "scutiger-lfs/src/bin/git-lfs-transfer.rs"; AT = "scutiger-bin/src/bin/git-at.rs"; RR = "scutiger-bin/src/bin/git-recent-refs.rs"; PG = "scutiger-bin/src/bin/pager/mod.rs"
out = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    out.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "An uploaded object is stored only if size and SHA-256 match exactly",
 "put-object answers status 200, and makes an object available under an oid, only if the data bytes received up to the end of the request number exactly the declared size and their SHA-256 digest is that oid; the stored file then consists of exactly those bytes, in order. "
 "In every other case (wrong size, wrong digest, malformed arguments, broken or truncated packet stream) the answer is a 4xx/5xx failure, the set and contents of stored objects are unchanged, and no partial upload is left behind when the server exits normally.",
 ["inputs", "histories"], "all oids, all declared sizes, all data contents and lengths, all ways to split the data over packets, all prior store contents",
 "The tests upload two tiny objects in one packet each and one object with a wrong digest; the claim is for every content, length, packet split and failure combination.",
 [PR, LO, P], [("counts and hashes every byte while it is copied to the temporary file, compares before publishing", PR + " (put_object, HashingReader)"), ("copies the stream to a temporary file; publishes by rename", LO + " (start_upload, finish_upload)")],
 ["response status", "bytes of the file objects/aa/bb/<oid>", "files left in incomplete/"], [("HashingReader.hash/size", "digest and length of exactly the bytes handed to the copier", PR)])

prop("C02", "Objects are published atomically: never visible partial or unverified",
 "At every moment, including after a kill at any point of an upload, the path of an object in the store is either absent, or as it was before, or holds a complete file whose SHA-256 is its oid: data is first written elsewhere and an object's path only ever changes by one atomic rename, performed after the size and digest have been verified. "
 "No request removes or truncates an object that was already stored.",
 ["crash_points", "inputs", "histories"], "every point between two file-system effects of an upload, every upload content and outcome",
 "Tests look at the store only after the request finished; crash points and the order of file-system effects are never exercised.",
 [PR, LO], [("temporary file in incomplete/, verification, then rename", LO + " (start_upload, finish_upload)"), ("finish_upload only after size and oid checks", PR + " (put_object)")],
 ["sequence of file-system effects of the server", "store contents at kill points"])

prop("C03", "The server touches only its own store files, whatever clients send",
 "Whatever bytes a client sends, the server creates, changes, deletes or reads object data and lock data only at objects/<oid[0:2]>/<oid[2:4]>/<oid> for a 64-digit lowercase hexadecimal oid, at locks/<id> (and its transient .lock companion) for an id of the same form, and at fresh temporary names in incomplete/, all inside the lfs directory of the repository it was started on. "
 "A client-supplied oid, lock id or lock path of any other form never reaches the file system as a path, and the answers do not reveal whether other files exist.",
 ["inputs"], "all oids, lock ids, lock paths and arguments, including '..', '/', NUL, absolute paths and non-UTF-8 bytes",
 "Tests use only well-formed ids; the claim quantifies over every byte string a client can send.",
 [PR, LO], [("oid validation before any path is built", PR + " (Oid::new, Oid::valid, Oid::expected_path)"), ("lock file names are digests of the lock path; ids are validated", LO + " (hash_for, from_id, create)")],
 ["file-system effects of the server", "responses to malformed ids"])

prop("C04", "Operation mode limits what a session may do",
 "A session started for download never creates, changes or deletes objects or locks, whatever it sends: it gets an error for put-object and verify-object (403) and for lock and unlock (400 unknown command), while a session started for upload gets 403 for get-object and is never sent object contents. "
 "Any operation name other than upload or download is refused with a failure exit status and processes no request.",
 ["inputs", "histories"], "every sequence of requests in either mode, including malformed ones, and every operation name",
 "No test sends a command in the wrong mode.",
 [PR, TR], [("command dispatch on (command, argument, mode)", PR + " (process_commands)"), ("operation name to mode", TR + " (run)")],
 ["response status", "store and lock directory contents", "exit status"])

prop("C05", "Every request gets exactly one well-formed response, in order",
 "For every stream of well-framed requests (each ended by a flush packet) the server first sends its capability announcement and then exactly one response per request, in order, each being a 'status NNN' packet followed by its arguments, an optional delimiter and data or message, and one flush packet; quit ends the session with status 200 and exit status 0. "
 "The arguments and data of a request, including those of a failed, unknown or disallowed one, are never interpreted as further requests, and a request cut short by the end of the stream is not carried out.",
 ["inputs", "histories"], "all sequences of well-framed requests, good and bad, and every truncation of such a stream",
 "Tests run a few fixed transcripts in which at most the last request fails.",
 [PR, P, TR], [("one send_status per loop iteration, skipping the rest of the request", PR + " (process_commands)"), ("end-of-request tracking", P + " (read_packet, read, skip_to_flush)"), ("response encoding", PR + " (send_status, send_error)")],
 ["bytes written to standard output"])

prop("C06", "Failed requests get the status code that matches their cause",
 "A request that is malformed (bad oid, integer, missing or duplicate argument value, size or digest mismatch, limit 0, unsupported hash algorithm or version) is answered 400, an unknown command 400, a command not allowed in this mode 403, a missing object or lock 404, a conflicting lock or size mismatch on verify 409; only server-side failures and undecodable argument lists are answered 500. "
 "Success statuses (200, 201) are sent only if the requested operation was carried out.",
 ["inputs", "histories"], "every request in every store state",
 "Tests cover four failure causes with one example each.",
 [PR, E, LO], [("error kind to status mapping", PR + " (process_commands)"), ("per-command error construction", PR + " and " + LO)],
 ["response status and message"])

prop("C07", "pkt-line decoding accepts exactly the well-formed packets",
 "Decoding a packet succeeds exactly when the stream starts with four lowercase hexadecimal digits giving 0 (flush), 1 (delimiter) or a length from 4 to 65520 that is followed by at least length-4 bytes; it then yields that kind, and for data exactly those length-4 bytes, and consumes exactly the packet. "
 "Any other header is reported as a bad header and a packet cut short as an error; the decoder never panics.",
 ["inputs"], "every byte string, at every position of the stream, for every way the underlying reader splits its reads",
 "Unit tests decode six sample headers and one sample stream; there are 2^32 headers and unboundedly many streams.",
 [P], [("header parsing and length checks", P + " (parse_header, read_packet, read_one)")], ["returned packet or error kind", "bytes consumed"])

prop("C08", "pkt-line encoding is well-formed and decodes to what was written",
 "Writing any byte string as data produces a sequence of data packets of 1 to 65516 payload bytes each, with a four-digit lowercase hexadecimal length header, whose payloads concatenate to exactly that string and decode back to it; flush and delimiter packets are written as 0000 and 0001. "
 "A packet whose payload cannot be represented is refused without writing anything, and the reported number of bytes equals the data written.",
 ["inputs"], "every byte string of every length, and every packet value",
 "Tests encode one short and one long sample.",
 [P], [("chunking and header formatting", P + " (Writer::write, write_one, write_packet)")], ["bytes written to the underlying stream", "return value"])

prop("C09", "Reading a packet stream yields exactly its payload up to the end mark",
 "Reading through the packet stream reader with any sequence of buffer sizes (including zero and more than a packet) yields exactly the concatenation of the payloads of the data packets up to the next flush or delimiter packet, each byte once and in order, and then reports end of data. "
 "Empty data packets contribute nothing and do not end the data; a malformed or truncated packet yields an error and never invented, repeated or lost bytes.",
 ["inputs"], "every packet sequence and every sequence of read-buffer sizes",
 "One test reads one sample with one buffer-size pattern.",
 [P], [("leftover buffer with offset and length", P + " (Reader::read)")], ["bytes and counts returned by read"], [("off/len", "the unread part of the current packet", P)])

prop("C10", "Downloads return exactly the stored bytes and their size",
 "get-object for a stored object answers status 200 with a size argument equal to the number of stored bytes, and data equal to exactly the stored bytes; for an oid that is not stored it answers 404, and neither changes anything. "
 "An object uploaded earlier with status 200 is downloaded with exactly the bytes uploaded.",
 ["inputs", "histories"], "all stored contents of any length (including empty and multi-packet) and all oids",
 "One test downloads two tiny objects.",
 [PR, LO, P], [("size from the opened file's metadata, contents copied in packets", PR + " (get_object, send_status)"), ("open by oid", LO + " (download)")], ["response"])

prop("C11", "batch answers every oid once, in order, with the right size and action",
 "A well-formed batch request is answered 200 with exactly one line '<oid> <size> <action>' per requested line, in request order: stored objects have the stored size and action noop (upload) or download (download), others the requested size and action upload (upload) or noop (download). "
 "If any line is malformed (missing newline, wrong number of fields, bad oid, bad size) or the hash algorithm is not sha256 the whole request fails and nothing is listed; a batch never changes the store.",
 ["inputs", "histories"], "all lists of oids and sizes (including duplicates and empty lists), every store state, both modes",
 "Tests list two oids.",
 [PR, LO], [("line parsing", PR + " (read_batch)"), ("presence and size lookup", LO + " (batch)"), ("line formatting", PR + " (batch_data)")], ["response"])

prop("C12", "Request arguments are parsed exactly or rejected",
 "An argument list is accepted exactly when every item contains '=', ends in a newline and no key occurs twice; it then maps each key (the bytes before the first '=') to exactly the bytes between that '=' and the final newline. "
 "A numeric argument is accepted exactly when it is a decimal integer (optional leading '+') in range of its type, with its value unchanged; sizes up to 2^64-1 are supported.",
 ["inputs"], "every list of byte strings and every value",
 "Tests use three well-formed keys.",
 [PR], [("split at first '=', newline and duplicate checks", PR + " (ArgumentParser)")], ["resulting map or error kind"])

prop("C13", "verify-object confirms exactly the stored size",
 "verify-object answers 200 exactly when the object is stored and its size equals the given size, 404 when it is not stored, 409 when it is stored with another size, and 400 when the oid or the size argument is malformed or missing. "
 "It never changes the store.",
 ["inputs", "histories"], "all oids, sizes and store states",
 "Tests check one mismatch, one missing object and two matches.",
 [PR, LO], [("metadata length against parsed size", LO + " (verify)")], ["response status"])

prop("C14", "A path has at most one lock; lock creation is exclusive",
 "lock answers 201 exactly when no lock for that path existed, and from then on the lock exists with this path; if one existed it answers 409 with the existing lock's id, path, time and owner and leaves that lock's record unchanged. "
 "A lock stays until it is unlocked, creating or removing one lock never affects another, and leftovers of an interrupted creation do not make the server crash or grant a second lock. When servers lock the same path at the same time, one of them answers 201 and the others 409 with its lock.",
 ["inputs", "histories", "crash_points", "schedules"], "all lock paths and all histories of lock and unlock requests, including stale temporary files and servers running at the same time",
 "One test locks one path twice.",
 [PR, LO], [("exclusive temporary file and hard link", LO + " (LockFile::write, LockFile::persist)"), ("conflict lookup and retry", PR + " (lock)")], ["responses", "contents of locks/"])

prop("C15", "unlock removes exactly the lock named by the id",
 "unlock with the id of an existing lock answers 200 with that lock's details and removes that lock and nothing else; with any other id it answers 404 (400 if it is not valid UTF-8) and changes nothing. "
 "After it, the same id is unknown and the path can be locked again.",
 ["inputs", "histories"], "all ids (any byte string) and all sets of locks",
 "One test unlocks one lock.",
 [PR, LO], [("id lookup", LO + " (from_id)"), ("removal by digest of the lock's path", LO + " (LocalBackendLock::unlock)")], ["responses", "contents of locks/"])

prop("C16", "list-lock pages enumerate every lock exactly once within the limit",
 "Following next-cursor from the first page until none is given lists every lock exactly once in ascending id order, no page lists more locks than the requested limit (at most 100, default 100), and next-cursor is present exactly when more locks remain. "
 "With a path argument the lock for exactly that path is listed or 404 given; each lock is listed with its id, path, time and owner, and whether it is ours or theirs exactly in upload mode.",
 ["inputs", "histories"], "all sets of locks, all limits, cursors and paths, both modes",
 "One test lists one lock without a limit.",
 [PR, LO], [("skip to cursor, take limit+1, cursor from the extra item", PR + " (list_locks)"), ("sorted directory iteration", LO + " (LockSetIterator)")], ["responses"])

prop("C17", "Lock details round-trip unchanged",
 "A lock's id is the lowercase hexadecimal SHA-256 of 'v1:' followed by its path, and lock, list-lock and unlock all report for it the same id, exactly the path bytes given when it was created (whatever bytes they are, including ':' and non-UTF-8), the same RFC 3339 UTC creation time and the same owner name. "
 "A stored record that is not of the form 'v1:<time>:<path>' with a representable time is never reported as a lock.",
 ["inputs", "histories"], "all paths up to the packet limit, all representable times, all stored records",
 "One test uses one ASCII path and one timestamp.",
 [LO, BK], [("record format and parser", LO + " (create, parse)"), ("argument and listing formats", BK + " (as_arguments), " + LO + " (as_lock_spec)")], ["responses", "contents of locks/<id>"])

prop("C18", "Stored files get the permissions core.sharedRepository asks for",
 "With core.sharedRepository unset, false, 0 or umask the server keeps the umask it was started with; with true, 1 or group it makes what it stores group-accessible and not accessible to others; with 2, all, world or everybody also readable by others; with any other octal number it uses exactly that mode. "
 "Execute permission accompanies read permission, a stored object has the resulting mode 0777 less the mask, and an invalid mode never results in wider access than requested.",
 ["configurations"], "all values of core.sharedRepository and all initial umasks",
 "No test sets core.sharedRepository.",
 [TR, LO], [("configuration value to mask", TR + " (set_permissions)"), ("mode applied after publishing", LO + " (fix_permissions)")], ["mode bits of stored files"])

prop("C19", "Exit status and diagnostics tell success, no match and failure apart",
 "Once the command line is accepted (valid UTF-8) and the repository opened, git-at, git-recent-refs and git-lfs-transfer exit 0 exactly on success, 1 exactly when the failure is a missing revision or a conflict, and 2 for every other failure (git-at --show: what git show exits with); a failure prints one diagnostic on standard error and no result on standard output. "
 "With --quiet git-at prints nothing when nothing matches, but still reports other failures; git-at prints the found object id alone on one line.",
 ["inputs", "configurations"], "all error kinds and option combinations",
 "Tests look at the library result of successful runs and never at exit statuses or diagnostics.",
 [E, AT, TR, RR], [("error kind to exit status", E + " (exit_status, fatal)"), ("diagnostics and quiet handling", AT + " (main)")], ["exit status", "standard output", "standard error"])

prop("C20", "git-at finds the first matching commit in commit-time order",
 "git-at prints the first commit, in the order git lists the history of the given revision (default HEAD) by commit time, newest first, whose message matches the regular expression, and no other; it reports no match only if no commit reachable from that revision matches. "
 "With --no-fixup commits whose message starts with 'fixup!' or 'squash!' (after optional white space) are never chosen, and without it they are treated like any other.",
 ["inputs", "histories"], "all commit graphs, all patterns, all revisions and option combinations",
 "Tests use one small fixed repository and a few patterns.",
 [AT], [("revision walk sorted by time, regex on the raw message", AT + " (run, pattern)")], ["standard output"])

prop("C21", "git-at --summary searches exactly the first line of the message",
 "With --summary a commit matches exactly when the given pattern, taken as it is, matches within the first line of the commit message: text after the first line never makes a commit match, and alternatives, anchors and options in the pattern keep their meaning. "
 "All other rules for choosing the commit stay the same.",
 ["inputs"], "all commit messages and all patterns",
 "Tests use only literal patterns.",
 [AT], [("message restricted to its first line before matching", AT + " (run)")], ["standard output"])

prop("C22", "git-recent-refs lists exactly the right references, most recent first",
 "With --sort=committerdate or authordate git-recent-refs lists each direct reference that resolves to a commit exactly once, by its full name (one that is not UTF-8 is left out), in non-increasing order of the respective date of that commit (references with the same date and time zone in the order git enumerates them). "
 "With visitdate (the default) it lists HEAD and then the previously checked-out references and commits @{-1}, @{-2}, ... in that order, full reference names or object ids, up to the first one that does not exist.",
 ["inputs", "histories"], "all sets of references, dates (including ties, negative and differing time zones) and checkout histories",
 "Tests use one fixture for visit and committer order; author order, ties and filtering are not covered.",
 [RR], [("stable sort by date, descending", RR + " (run)"), ("reflog walk by @{-n}", RR + " (run, stringify)")], ["standard output"])

prop("C23", "No client input crashes the transfer server",
 "Whatever bytes a client sends in either mode and whatever files are found in the lock directory, the server does not panic, overflow or index out of bounds: it answers or ends the session with a defined exit status. "
 "In particular every request line, argument, oid, id, size and cursor may be empty, of any length up to a packet and of arbitrary bytes.",
 ["inputs", "histories"], "every byte stream a client can send, every state of the lock directory",
 "A panic on one unusual input is not visible to the handful of well-formed transcripts in the tests.",
 [P, PR, LO, TR], [("bounds-checked slicing guarded by explicit checks", P + ", " + PR + ", " + LO)], ["process exit", "obligations on every index, slice, subtraction and unwrap"])

prop("C24", "git-recent-refs uses the right pager and waits for it",
 "When standard output is a terminal, git-recent-refs shows its listing through a pager: the shell command in the environment variable GIT_PAGER, else the one in the configuration core.pager (a leading ~ stands for the home directory), else the one in PAGER, else less; when that is empty or exactly 'cat', no pager is used. "
 "The pager is given exactly the listing on its standard input, and the command ends only after the pager has ended. When standard output is not a terminal, no pager is started and the listing goes to standard output unchanged.",
 ["inputs", "configurations"], "all values and combinations of the three settings (absent, empty, cat, any command), terminal or not, all listings",
 "Tests never run the program on a terminal, so nothing in the pager is executed by them.",
 [PG, RR], [("choice of the pager", PG + " (find_pager, new)"), ("where the listing goes", PG + " (stdout), " + RR + " (main)")], ["the pager's command line and standard input", "standard output", "order of the ends of the two processes"])

dst = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(dst, "w") as f:
    for p in out: f.write(json.dumps(p) + "\n")
print(len(out))
