#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json
CORE="scutiger-core/src/pktline.rs"; PROC="scutiger-lfs/src/processor.rs"; LOC="scutiger-lfs/src/backend/local.rs"; BIN="scutiger-lfs/src/bin/git-lfs-transfer.rs"
AT="scutiger-bin/src/bin/git-at.rs"; RR="scutiger-bin/src/bin/git-recent-refs.rs"; PG="scutiger-bin/src/bin/pager/mod.rs"; ERR="scutiger-core/src/errors.rs"; BK="scutiger-lfs/src/backend.rs"
def m(n,w): return {"name":n,"where":w}
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[m(*x) for x in mech],"observe_at":observe,"hook_needed":hook}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    P.append(d)

prop("P01","pkt-line writer and reader round-trip all data",
 "Whatever sequence of packets and byte writes is sent through the pkt-line writer comes back unchanged from the pkt-line reader, both packet by packet and as a byte stream, whatever the buffer sizes used for reading (zero-length reads included) and however the transport splits its reads and writes. Every packet put on the wire carries a correct four-digit lowercase hexadecimal length and is at most 65520 bytes long, or the write is refused with an error and nothing malformed is emitted.",
 ["inputs","histories"],"all sequences of writes, packets and reads, with every payload size, buffer size and transport fragmentation",
 "The unit tests use one payload pattern, six chunk sizes and io::copy's single buffer size; boundary sizes, mixed packet/stream reading, tiny or huge or empty buffers and short reads are never combined.",
 [CORE],[("Writer::write / write_one / write_packet: chunking and header",CORE),("Reader::read: left-over buffer and direct read",CORE),("Reader::read_packet, iter",CORE)],
 ["scutiger_core::pktline public API (Reader, Writer, Packet)"],state=[("Reader.buf/off/len","unread rest of the current packet",CORE)])
prop("P02","pkt-line reader accepts exactly the well-formed packets",
 "For every byte sequence, the pkt-line reader (packet by packet, iterated, or as a stream) yields exactly the packets of its longest well-formed prefix and then reports an error, or end of input if the bytes just stop. A header is well-formed only if it is four digits 0-9a-f whose value is 0, 1, or 4 to 65520; the reader never panics, never yields data that was not in the input, and never consumes bytes beyond the packet it reports.",
 ["inputs"],"all byte sequences",
 "The tests parse eight headers and five packets; the 2^32 headers and truncation points are not covered (the unmodified code accepted ':' and 'g' as digits and overflowed on 'fgff').",
 [CORE],[("Reader::parse_header",CORE),("Reader::read_one and read_packet length checks",CORE),("ReaderIterator end-of-input handling",CORE)],
 ["scutiger_core::pktline::Reader over arbitrary bytes"])
prop("P03","Uploads are stored exactly when size and SHA-256 match",
 "An object upload is answered with success exactly when it names a well-formed object ID (64 lowercase hex digits), declares a valid size, carries exactly that many bytes, and those bytes have that SHA-256; the store then holds exactly those bytes under that ID. Any other upload is answered with an error and leaves every stored object as it was, with no partial file left behind; after any history of sessions, every object visible in the store hashes to its own ID.",
 ["inputs","histories"],"all upload requests (ID, declared size, contents, packet split) in all session histories",
 "Tests upload two fixed objects and one corrupted one with equal length; wrong sizes, sizes that match with wrong content, re-uploads over existing objects, multi-packet bodies and duplicate or missing arguments are not tried.",
 [PROC,LOC],[("put_object: size then hash comparison before finish_upload",PROC),("HashingReader",PROC),("temporary file in incomplete/ and rename",LOC)],
 ["git-lfs-transfer upload sessions","files under <gitdir>/lfs"],state=[("objects/xx/yy/<oid>","published object",LOC),("incomplete/","uploads in progress",LOC)])
prop("P04","Downloads, batch and verify report the store truthfully",
 "After any history of uploads, downloading an object returns exactly the bytes that were uploaded together with their size, and an object never uploaded is reported as not found. A batch answer has one line per requested object in request order, with the stored size and upload-noop/download action if present, and the requested size and upload/download-noop action if absent; verify answers success, conflict or not-found according to the stored size.",
 ["histories","inputs"],"all histories of uploads over any number of sessions, and all batch, verify and download requests over them",
 "Tests download one 32-byte object and batch two; sizes around packet and copy-buffer boundaries, empty objects, many-object batches, repeated and interleaved IDs and cross-session histories are not tried.",
 [PROC,LOC],[("read_batch/batch_data",PROC),("get_object and send_status streaming",PROC),("LocalBackend::batch/verify/download, Oid::expected_path",LOC)],
 ["git-lfs-transfer responses"])
prop("P05","Every request gets exactly one response and the session stays in step",
 "In any session made of well-framed requests (a command packet followed by packets up to a flush), the server gives exactly one well-formed response per request, in order, whether the request is valid, malformed or refused, and a refused request changes nothing and does not alter how later requests are answered. Bytes carried in a request's arguments or object data are never interpreted as commands.",
 ["histories","inputs"],"all sequences of well-framed requests, valid and invalid, in both operations",
 "Every test transcript except three contains only accepted requests, and those three fail late; a refusal before the body has been read (bad ID, bad size, wrong mode, unknown command or version) is never followed by further requests.",
 [PROC],[("process_commands dispatch and error mapping",PROC),("read_to_type / read_to_flush / read_to_delim",PROC),("put_object early returns",PROC)],
 ["response stream of git-lfs-transfer compared with a reference model, request by request"])
prop("P06","The operation given on the command line limits what a session can do",
 "A session started with operation 'download' never creates, changes or removes an object or a lock, and a session started with 'upload' never discloses object contents; commands outside the operation are refused with an error status. Any other operation name is refused with a failing exit status and without serving any request.",
 ["inputs","histories"],"all request sequences in either operation, over all store states",
 "No test sends a command of the other operation.",
 [PROC,BIN],[("mode column of the dispatch table",PROC),("Program::run operation match",BIN)],
 ["file-system snapshot before and after; responses"])
prop("P07","A request cut off by a disconnect has no effect",
 "If the client's byte stream ends at any point, or is no longer made of well-formed packets from there on, the server has carried out and answered exactly the requests that were received completely: a request whose terminating flush did not arrive changes no object and no lock, leaves no partial upload behind and gets at most an error response, and complete requests before it keep their effect. Nothing after a malformed packet is carried out. The server then exits by itself without crashing.",
 ["inputs","crash_points"],"every prefix of every session byte stream",
 "No test truncates its transcript.",
 [PROC,CORE],[("read_to_type at end of input",PROC),("ReaderIterator end-of-input handling",CORE),("io::copy error path in start_upload",LOC)],
 ["store snapshot and responses for each prefix"])
prop("P08","No client input crashes the server or corrupts its output or store",
 "For every byte stream on standard input, in either operation and over any store, the server terminates with exit status 0 or 2 (never a panic, signal or endless loop) and everything it wrote to standard output is a greeting followed by complete, well-formed responses. Whatever the input, every object in the store still hashes to its ID and every lock record is intact.",
 ["inputs"],"all input byte streams",
 "The tests send only hand-written, well-framed transcripts.",
 [CORE,PROC,LOC],[("parse_header, ArgumentParser, read_batch slicing",PROC),("lock retry loop",PROC)],
 ["exit status, parsed standard output and store invariants of git-lfs-transfer"])
prop("P09","Killing the server at any point leaves a usable, consistent store",
 "If the server process is killed at any moment, every visible object is complete, hashes to its ID and has its final permissions; each upload, lock or unlock either happened entirely or not at all, and anything already acknowledged stays in effect. A later session works normally: it lists exactly the locks that are held, can release each of them, can lock any other path, and can upload the interrupted object.",
 ["crash_points","histories"],"every system call of every upload/lock/unlock session as crash point",
 "No test kills the server; left-over temporary files and half-done operations never arise.",
 [LOC],[("tempfile in incomplete/ then rename",LOC),("lock temporary file then hard link",LOC),("fix_permissions",LOC)],
 ["store contents and a follow-up session after SIGKILL at each system call"])
prop("P10","A failing system call is never reported as success and damages nothing",
 "If any single file or stream operation fails (no space, I/O error, permission, too many files), the server does not crash, every request whose failure it survives still gets exactly one response, and a success answer is given only if the requested effect is really in place. A failed operation leaves existing objects and locks intact, no later request is affected by it, and it is not taken for the absence of an object or a lock that is there, or the presence of a lock that is not.",
 ["fault_sequences","histories"],"every system call on the store or on the standard streams failing with each plausible error, in generated sessions",
 "No test injects a fault.",
 [LOC,PROC],[("? propagation and error-to-status mapping",PROC),("LockFile::write/persist, finish_upload",LOC)],
 ["responses, store, and follow-up session under injected errno"])
prop("P11","The lock commands implement a lock table",
 "Over any history of sessions and users, locking a path succeeds exactly when it is not locked, and otherwise reports a conflict with the holder's details; unlocking succeeds exactly for the ID of a held lock, and lock lookups and listings show exactly the held locks. Only a path too long to be shown in a listing (more than 65445 bytes) cannot be locked. A lock's ID, path (any bytes), time and owner name are reported identically everywhere it appears, from its creation until it is released, and listings for upload say 'ours' exactly for the current user's locks.",
 ["histories","inputs"],"all sequences of lock, unlock and list requests over any number of sessions, users, clock readings and paths",
 "One test locks one path twice, lists it and unlocks it, with a pinned clock and one user.",
 [PROC,LOC,BK],[("lock/list_locks/unlock",PROC),("LocalLockBackend create/from_path/from_id/iter",LOC),("LocalBackendLock hash_for/parse/as_lock_spec",LOC)],
 ["git-lfs-transfer lock responses versus a map model"],state=[("locks/<id>","one record per held lock: version, time, path",LOC)])
prop("P12","Paging through locks shows each held lock exactly once",
 "Following the listing from its first page via each page's next cursor until there is none ends, and shows every held lock exactly once in a fixed order; no page holds more locks than the requested limit or than 100. Locks created or released between pages do not cause any other lock to be missed or repeated, and a limit of zero or a malformed limit is refused. A listing for one path that starts at a cursor shows its lock exactly when the listing of all locks from that cursor does.",
 ["inputs","histories"],"all sets of locks, all limits, and lock changes between pages",
 "The only listing in the tests has one lock and limit 100, so no second page is ever produced.",
 [PROC,LOC],[("list_locks limit/cursor handling",PROC),("LockSetIterator ordering",LOC)],
 ["next-cursor argument and lock lines of list-lock responses"])
prop("P13","Locks are mutually exclusive under concurrent sessions",
 "When several server processes on one store lock, unlock and list the same paths at the same time, the answers to lock, unlock and lookup requests are those of some one-at-a-time execution that respects real time: in particular a path is never granted twice without a release in between; only the details of a lock released may be those of a holder earlier during that request. A listing shows every lock held while it was made and none that nobody held. A request may fail with a temporary error only while others change the same lock. No interleaving crashes a server, loses a granted lock, or leaves anything behind that blocks or confuses later requests.",
 ["schedules","histories"],"all interleavings, at system-call granularity, of concurrent sessions",
 "All tests run a single session at a time.",
 [LOC,PROC],[("temporary file + hard_link publication",LOC),("retry after conflict in lock()",PROC)],
 ["responses of concurrently scheduled processes, linearizability check"])
prop("P14","Client-supplied names never reach outside the LFS directory",
 "Whatever bytes a client sends as object ID, lock ID, lock path or cursor, the server opens, reads, creates, changes or removes nothing outside the repository's LFS directory on its account, and its answers reveal neither the existence nor the contents of anything outside. Inside it, a lock ID that is not exactly the ID of a held lock is answered with an error and changes nothing.",
 ["inputs"],"all byte strings used as names in requests",
 "The tests only use well-formed IDs and the path 'foo'.",
 [PROC,LOC],[("Oid::valid",PROC),("LocalLockBackend::from_id joins the ID to the lock directory",LOC)],
 ["system calls made while serving, canary files, responses"])
prop("P15","Stored files honour core.sharedRepository or the umask",
 "Each object, lock record and directory the server creates is readable and writable by exactly the classes (owner, group, others) that the repository's core.sharedRepository setting prescribes as in Git and Git LFS: group/true/1 give owner and group, all/world/everybody/2 add reading for others, an octal mode gives exactly that mode, and umask/false/0 or no setting follows the process umask. Directories are also searchable by every class that can read them. An object or lock record is never visible under its name with other permissions, not even for a moment.",
 ["configurations","inputs"],"all spellings of core.sharedRepository, all octal modes, all umasks",
 "No test sets core.sharedRepository or looks at a mode.",
 [BIN,LOC],[("Program::set_permissions",BIN),("fix_permissions",LOC)],
 ["st_mode of files under <gitdir>/lfs"])
prop("P16","Concurrent transfers see whole objects or none",
 "When several server processes upload, download, batch and verify the same objects at the same time, a download or query sees each object either as absent or as complete and intact, and once an upload has been acknowledged every later request sees it. Every valid upload succeeds and every invalid one is refused regardless of the interleaving, by any mix of users sharing the repository.",
 ["schedules","histories"],"all interleavings, at system-call granularity, of concurrent transfer sessions",
 "All tests run a single session at a time.",
 [LOC],[("unique temporary name, rename into place, permissions",LOC),("create_dir_all",LOC)],
 ["responses and store of concurrently scheduled processes"])
prop("P17","Transport timing never changes a conversation",
 "The server's responses and effects depend only on the bytes sent, not on how the transport splits or interrupts reads and writes. Before it waits for more input, it has completely delivered the response to every request it has received, so a client that waits for each response never deadlocks.",
 ["schedules","inputs"],"all fragmentations and interruptions of standard input and output, including lock-step clients",
 "The tests use in-memory cursors that never split reads and need no flushing.",
 [PROC,CORE],[("flush in write_packet(Flush)",CORE),("read_exact/write_all loops",CORE)],
 ["responses at the moment of each read of standard input"])
prop("P18","Damaged or foreign files do not disturb the lock service",
 "Whatever stray or damaged files are found in the lock directory (garbage, truncated or out-of-range records, records under the wrong name, leftovers of killed servers, subdirectories), the server does not crash, never reports any of them as a held lock, and lists, grants and releases all other locks correctly. Locking or releasing a path whose own record is damaged is answered with an error, never granted.",
 ["inputs","histories"],"all contents of the lock directory combined with lock histories",
 "Tests start from an empty store.",
 [LOC],[("LocalBackendLock::parse",LOC),("LockSetIterator skips unreadable entries",LOC),("from_path consistency check",LOC)],
 ["lock responses over a store with injected files"])
prop("P19","git at prints the first match in reverse chronological order",
 "git at prints exactly the full object ID of the first commit, walking all history reachable from the given revision (default HEAD) newest commit date first as git log does (no commit before all its children, whatever the dates), whose message the pattern matches; the search covers every reachable commit, and only those. The pattern is a PCRE-compatible regular expression applied to the raw bytes of the commit message.",
 ["inputs"],"all commit graphs, dates, messages, starting revisions and patterns",
 "Tests run a dozen patterns on one fixed eleven-commit repository.",
 [AT],[("revwalk sorted by time",AT),("Regex::is_match on message_bytes",AT)],
 ["stdout of git-at versus a reference walk"])
prop("P20","git at --summary and --no-fixup restrict the search as documented",
 "With --summary a commit matches exactly when the pattern matches within its first line alone, whatever the pattern (alternations, anchors, flags and line-crossing patterns included). With --no-fixup, commits whose message starts with 'fixup!' or 'squash!' are never printed and never hide another match; without it they count like any other commit, and the two options combine.",
 ["inputs"],"all patterns and commit messages, both options on and off",
 "Tests use six patterns without alternation or end anchors (the unmodified code let 'a|b' escape from the summary).",
 [AT],[("Program::pattern",AT),("fixup_regex",AT)],
 ["stdout of git-at versus a reference matcher"])
prop("P21","git at resolves revisions like Git and keeps its exit-status contract",
 "git at starts from the commit that git rev-parse finds for the given revision. It exits 0 with exactly one line on standard output when a commit matches; 1 with empty standard output when none does or the revision does not exist, saying so on standard error unless --quiet is given; and 2 with a message and empty standard output for an invalid pattern or if history cannot be read, even with --quiet. With --show it runs git show on that commit instead and passes on its exit status, or fails with a message if that cannot be run.",
 ["inputs","configurations"],"all revision expressions, patterns and option combinations",
 "The tests call the search function directly and never run the program, its options or its exit codes.",
 [AT,ERR],[("Program::main",AT),("Error::exit_status / fatal",ERR),("revparse_single",AT)],
 ["exit status, stdout and stderr of git-at"])
prop("P22","git recent-refs by date lists every reference once, newest first",
 "With --sort=committerdate or --sort=authordate, git recent-refs prints every direct reference with a UTF-8 name that leads to a commit (annotated tags included) exactly once by full name, and nothing else, ordered from newest to oldest by that commit's committer or author date respectively. References private to one linked working tree (refs/bisect and the like) are outside this statement.",
 ["inputs"],"all sets of references, targets and dates",
 "One test lists six branches of a fixed repository by committer date; author date, tags, remotes, symbolic references and differing author/committer dates are never tried.",
 [RR],[("Program::run Committed/Authored",RR)],
 ["stdout of git-recent-refs versus git for-each-ref"])
prop("P23","git recent-refs by visit lists the checkout history",
 "By default and with --sort=visitdate, git recent-refs prints the current branch and then, from most to least recent, everything that was checked out before according to HEAD's history, duplicates and detached commits included: branches by full name, detached commits by object ID. A branch that has been deleted in the meantime is left out without hiding anything older, and other references with the same short name never take a branch's place.",
 ["histories"],"all histories of checkouts, commits, branch creations, renames and deletions",
 "One test performs four checkouts between existing, unambiguous branches.",
 [RR],[("Program::run Visited",RR)],
 ["stdout of git-recent-refs versus a model of the checkout history"])
prop("P24","git at and git recent-refs never modify the repository",
 "Running git at or git recent-refs with any options, successfully or not, leaves every file of the repository (objects, references, reflogs, index, configuration, working tree) exactly as it was, and works on a repository the user cannot write to.",
 ["inputs","configurations"],"all repositories and option combinations",
 "No test compares the repository before and after.",
 [AT,RR],[("read-only libgit2 calls",AT)],
 ["file-system snapshot; runs on read-only repositories"])
prop("P25","Paged output is delivered completely to the configured pager",
 "When its standard output is a terminal, git recent-refs sends its complete output to the pager chosen as in Git (GIT_PAGER, then core.pager, then PAGER, then less; 'cat' or empty meaning none; a command for the shell, which expands a leading ~/ or ~user/), and does not exit before the pager has finished. If there is no shell to run a pager, or standard output is not a terminal, no pager is started and the same output is written directly.",
 ["configurations","inputs"],"all combinations of pager settings, output sizes and terminal or non-terminal output",
 "No test starts the program on a terminal.",
 [PG,RR],[("Pager::find_pager/new/stdout",PG),("main",RR)],
 ["bytes arriving on a pseudo-terminal and at the pager, order of exits"])
prop("P26","One repository has one store, however it is named",
 "Whichever of a repository's names the server is given, its Git directory, its work tree, the work tree of a linked or separated one, or the .git file of one of those, absolute or relative, through symbolic links, with any bytes in it, and whatever GIT_DIR is in the environment, it works on one and the same store, the lfs directory inside the Git directory shared by all work trees: what one session has stored or locked is there for all others, and nothing outside of that store changes. A path that is not a repository is refused with a failing exit status, without serving any request or creating anything.",
 ["configurations","histories"],"all layouts of repositories, all ways of naming them, and all session histories over them",
 "Tests create the repository object in-process in one plain work tree; main, its path argument and any other layout are never run (the unmodified code gave each linked working tree a store of its own).",
 [BIN],[("repo(): Repository::open",BIN),("Program::new / main_internal: location of the LFS directory",BIN)],
 ["git-lfs-transfer responses over several names, and the file system"])
prop("P27","Large objects and long sessions need no more memory or open files",
 "The memory and the number of open files a server needs depend neither on the size of objects nor on the number of requests it has served: objects larger than its memory, beyond 4 GiB included, are received, refused, reported and sent exactly, and sessions of any length keep being answered correctly.",
 ["inputs","histories"],"all object sizes and all lengths of sessions",
 "The largest object in the tests has 32 bytes, and the longest session four requests.",
 [PROC,LOC],[("put_object: HashingReader and io::copy",PROC),("get_object and send_status streaming",PROC),("start_upload",LOC),("skip_to_flush",CORE)],
 ["git-lfs-transfer under RLIMIT_DATA and RLIMIT_NOFILE"])
prop("P28","git at and git recent-refs use the repository Git would use",
 "From any directory, and however they are run (by themselves, as git at, with --git-dir, -C or --bare, or from an alias), git at and git recent-refs work on exactly the repository and working tree which Git itself finds there, by GIT_DIR, or by searching upwards within the limits of GIT_CEILING_DIRECTORIES: its HEAD, references and history, and with --show the commit in it. Where Git finds no repository, they fail with a message and an empty standard output.",
 ["configurations"],"all layouts of repositories (nested, bare, separated, submodules, linked working trees), directories and settings of GIT_DIR and GIT_CEILING_DIRECTORIES",
 "Tests hand the program an opened repository; main never runs (the unmodified code ignored GIT_DIR, so that git --git-dir=X at searched another repository).",
 [AT,RR,"scutiger-bin/src/bin/libgit2/mod.rs"],[("repo()",AT),("repo()",RR)],
 ["stdout of git-at and git-recent-refs versus git rev-parse, log, show and for-each-ref"])
prop("P29","git at and git recent-refs never take failing output or input for success",
 "If anything git at or git recent-refs reads or writes fails (a full disk, an I/O error, a reader that has gone away, no permission or memory), they end in an orderly way, without a panic, and never present a wrong or incomplete result as a success: unless all output has been delivered they exit with a nonzero status (or of SIGPIPE) having written a prefix of it, and git at does not report 1, no match, instead. If only messages cannot be written, result and exit status stay the same; short reads and writes change nothing. If an object which history needs is missing or cannot be read, git at never prints another commit than it would have, nor reports no match. git recent-refs may leave out references which cannot be read.",
 ["fault_sequences"],"each system call of a run on the repository or on standard output and error failing once, with any of its errors; full, closed and short output; any commit missing, empty or unreadable",
 "Tests write to memory and read healthy repositories; the unmodified programs panicked whenever output failed.",
 [AT,RR,PG],[("Program::main: writeln",AT),("Program::main: writeln",RR),("Program::run: find_commit errors",AT)],
 ["exit status, stdout and stderr of git-at and git-recent-refs under injected failures"])
prop("P30","The protocol processor serves any backend faithfully",
 "Whatever a backend (an implementation of the Backend, LockBackend and Lock traits) returns, and in whatever pieces it reads uploads and delivers downloads: it is called exactly for the well-formed, complete requests the operation allows, with exactly the names, arguments and data the client sent; finish_upload is called exactly if the upload it has read up to the end is complete and matches size and SHA-256, with the state of this very upload, which is otherwise discarded before the next request; what it returns is passed on unchanged (batch items and locks in its order, pages with the limit and the cursor asked for, arguments, statuses, contents). An error it returns leads to one response with a message: 404 for an I/O error NotFound of a download, an unlock or for no lock, 403 for a PermissionDenied of an unlock, 409 with the details of the present lock for a Conflict of a lock (tried once more if that has gone), 400 for errors in the request (invalid or unexpected packets, object IDs, integers, missing, extra or corrupt data, what is not allowed or unknown), else 500. The session goes on in step, except that after a failure in the middle of a download it ends with an error and without completing the response.",
 ["inputs","fault_sequences","histories"],"all backends' results and ways of reading and delivering data, over all sessions of requests",
 "Tests use one working backend only; results, errors and partial reads it never produces are not exercised.",
 [PROC,"scutiger-lfs/src/backend.rs",CORE],[("Processor::process_commands and each command",PROC),("HashingReader, put_object",PROC),("traits Backend, LockBackend, Lock",'scutiger-lfs/src/backend.rs')],
 ["calls a mock backend gets, response packets and the result of process_commands"])
prop("P31","git at and git recent-refs answer correctly while the repository changes",
 "Whatever Git does to the repository at any moment while they run: if it only rewrites references, reflogs, commit graphs or pack indexes (git pack-refs and the like), git at and git recent-refs print exactly what they would have anyway. If it packs, repacks or prunes objects (git gc), or creates, moves, renames or deletes a reference or adds a commit, git at prints what it would have before or after, or fails with status 2 and a message as a file has just been replaced, but never prints another commit or reports no match instead; git recent-refs always succeeds, and by date prints each reference there was all the time exactly once and in order, and of the others only some of those there were before or after, by visit the current branch and the history of before or after. It may leave out only references whose commit cannot be read because its pack has just been replaced. More than one rewriting of all references or objects during a run, and a checkout, are outside this statement.",
 ["schedules"],"all moments of a run (system calls on the repository) at which Git's maintenance or an update of a reference takes place",
 "Tests run on repositories nobody else uses; with references packed at the wrong moment, the unmodified git recent-refs left them out.",
 [AT,RR],[("Program::run",AT),("Program::run, references",RR)],
 ["stdout and exit status of git-at and git-recent-refs, stopped at system calls while Git runs"])
prop("P32","Object IDs, arguments, integers and hashes are exact for backend writers",
 "What the library offers to writers of backends is exact for every input: an Oid is made of exactly 64 lowercase hexadecimal digits, is given back unchanged in each form and ordered like its bytes; its expected path is objects/<2 digits>/<2 digits>/<ID> below the given directory, and exists_at_path and size_at_path report exactly whether a file, or a link to one, is there, and its size. ArgumentParser::parse accepts exactly lists of 'key=value' lines (divided at the first '=', any bytes, each ended by a newline) without duplicate keys, and loses nothing; integers are parsed exactly if they are decimal, with an optional sign, nothing around them and within the range of the type. A HashingReader passes on the data and errors of its reader unchanged, however it is read, does not read on after the end, and knows size and SHA-256 of exactly what it passed on. Nothing panics.",
 ["inputs"],"all byte strings as IDs, arguments and integers, and all sequences of reads",
 "Tests parse a few well-formed transcripts; the helpers only other backends need are not called at all.",
 [PROC],[("Oid",PROC),("ArgumentParser",PROC),("HashingReader",PROC)],
 ["return values of the library's functions"])
with open("properties.jsonl","w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
