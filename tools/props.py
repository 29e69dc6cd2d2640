"""The properties: source of properties.jsonl and MANIFEST.json (tools/gen.py)."""
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, technique=technique, note=note, state=state,
                  observe=observe))


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                   files=files, mech=mech, reason=reason, state=(), observe=()))


S = "src/backy/"

prop("C01", "Data is durable before a revision counts as complete",
     "Whenever a revision's metadata on disk says that the backup is complete, all data of that "
     "backup has already been flushed to stable storage. A crash at any point of a backup leaves "
     "either an incomplete revision or a complete one whose data is entirely there.",
     ["crash_points", "inputs"],
     "every crash point of a backup run, for the RBD and the file source, full and differential",
     "Tests never lose power: with the sync missing or after the metadata write every test still passes.",
     [S + "rbd/__init__.py", S + "file/__init__.py", S + "revision.py"],
     [("sync, then stats['duration'], then write_info", "RBDSource.backup, FileSource.backup")],
     "path-sensitive typestate (dirty/synced data vs. published completion mark) over the "
     "abstract interpretation of every path of backup()",
     "All paths of both backup() implementations, interprocedurally, against a dirty -> synced -> "
     "published automaton. Trusts that os.sync() makes everything written before durable.",
     state=[("stats['duration']", "present in the .rev file: the revision is complete", "revision.py")])

prop("C02", "Metadata files are replaced atomically and durably",
     "Revision metadata, problem reports, quarantined chunks and the per-repository configuration "
     "are only ever changed by writing a temporary file in the same directory, flushing it to disk "
     "and renaming it over the target. A crash or error while writing leaves the previous content "
     "untouched.",
     ["crash_points", "fault_sequences"],
     "every crash point and every failing system call of each metadata writer",
     "Tests do not crash in the middle of a write; a torn or empty metadata file only appears then.",
     [S + "utils.py", S + "revision.py", S + "report.py", S + "source.py"],
     [("SafeFile: temporary file, flush, fsync, rename", "utils.SafeFile"),
      ("who-may-write", "all of src/backy")],
     "path-sensitive typestate of temporary files plus a who-may-write query over all functions",
     "Every path of the metadata writers including exception paths, and every file-creating call "
     "in src/backy. Trusts rename(2) and fsync(2).")

prop("C03", "Chunks are published whole, under the hash of their content",
     "A chunk file appears under its final name only after its complete content has been written "
     "to a temporary file next to it, and its name is the hash of exactly the data it holds. A "
     "chunk is only considered stored (and its hash handed out to be referenced) once that file "
     "exists.",
     ["crash_points", "fault_sequences", "inputs"],
     "every chunk flush: new, known and forced chunks, with any operation failing",
     "Tests write chunks without faults and without concurrent readers; partial chunks under a "
     "valid name need a crash or a full disk.",
     [S + "rbd/chunked/chunk.py", S + "rbd/chunked/store.py"],
     [("mkstemp in the chunk's directory + rename", "Chunk.flush"),
      ("seen set", "Store.seen")],
     "path-sensitive typestate of the temporary file with term equality between hashed and "
     "compressed bytes",
     "Every path of Chunk.flush and Chunk.write. Equality of data is equality of symbolic terms; "
     "collisions of the hash function are out of scope.")

prop("C04", "Chunk data is verified against its hash before it is used",
     "Data read from the chunk store is only ever handed to a reader, a restore or a later write "
     "if its hash equals the one it is stored under. Missing, unreadable, undecompressable or "
     "mismatching chunks are reported with the backend's own exception type, never returned as data.",
     ["inputs", "fault_sequences"],
     "every content of the chunk file and every failure while reading it",
     "Tests corrupt one chunk in one way; the guarantee covers every corruption and error.",
     [S + "rbd/chunked/chunk.py", S + "rbd/chunked/__init__.py"],
     [("hash comparison and exception conversion", "Chunk._read_existing")],
     "path-condition dataflow: buffer content must be dominated by hash(data) == self.hash; "
     "exception-type analysis of all escaping failures",
     "Every path of Chunk.read and Chunk.write including exceptional ones.")

prop("C06", "Every change to a repository happens under the lock protecting it",
     "Backup data and chunks are written only while the repository's backup lock is held "
     "exclusively and its purge lock is held shared; backup data is read for a restore or a "
     "verification under the shared purge lock; unused data is purged only under the exclusive "
     "purge lock. Existing revisions are changed or removed only while holding the exclusive "
     "backup lock (verification: the shared purge lock). Expiry, changing tags and the removal of "
     "incomplete revisions work on the revisions as read again once they have the lock.",
     ["interleavings", "histories"],
     "every interleaving of CLI commands, API requests, daemon jobs and source programs on one repository",
     "The tests run one operation at a time; a missing lock only shows up when two overlap.",
     [S + "repository.py", S + "rbd/__init__.py", S + "file/__init__.py", S + "daemon/scheduler.py",
      S + "daemon/api.py", S + "cli/__init__.py"],
     [("@locked, Repository.lock", "repository.py"), ("chunk writes, purge, revision removal",
                                                     "rbd/, file/, revision.py")],
     "interprocedural lockset analysis from every API-level entry point: each effect on "
     "chunks, data files or revision metadata against the locks held on that path",
     "All paths from 26 entry points (source programs, CLI commands, API handlers, job steps). "
     "Locks count by the name of the locked file and the flock mode; whether two callers mean "
     "the same repository object is not decided.",
     state=[(".backup, .purge", "lock files of a repository", "repository.py")])

prop("C05", "Garbage collection removes only data no revision refers to",
     "Garbage collection removes a chunk or backup data file only if no revision of the repository "
     "refers to it, whatever the state of that revision; of a chunk store all other chunks go, and of the "
     "directory of a file source no other files. The revisions are read after the exclusive "
     "purge lock was taken, and if collecting the references fails nothing is removed. Verification "
     "removes a chunk only after reading it has failed.",
     ["histories", "interleavings", "fault_sequences"],
     "every set of revisions (complete, incomplete, distrusted, verified), every concurrent backup "
     "and every failure while reading them",
     "Tests purge small stores with healthy revisions; a lost reference shows only with an unusual "
     "revision, a read error or a concurrent backup.",
     [S + "rbd/__init__.py", S + "file/__init__.py", S + "rbd/chunked/store.py"],
     [("gc: scan, collect used, purge", "RBDSource.gc, FileSource.gc"),
      ("removal of damaged chunks", "RBDSource.verify")],
     "path-sensitive dataflow: provenance of the set every removal is guarded by, back to the "
     "scanned revisions and the conditions on them",
     "All paths of both gc() implementations and of verification. That a File's map names all its "
     "chunks is taken from its data structure.")

prop("C07", "Repository locks are released on every exit and never taken half",
     "Every operation releases the repository locks it took, however it ends: normal return, error "
     "or cancellation. An exclusive lock somebody else holds is refused at once and the operation "
     "then fails without changing anything; a shared lock is waited for. A repository object never "
     "takes a lock it already holds a second time, and lock files are never removed.",
     ["fault_sequences", "interleavings"],
     "every exit of every locked operation, with any step failing, and every holder of the locks",
     "A lock left behind only hurts the next operation of a long-running daemon after a failure; "
     "tests use a fresh repository object each.",
     [S + "repository.py", S + "rbd/__init__.py", S + "file/__init__.py", S + "daemon/scheduler.py"],
     [("lock(), @locked, _lock_fds", "repository.py")],
     "typestate analysis (lock held / recorded / refused) over every normal and exceptional exit",
     "All exits of 16 locked operations. Operations not about locks are kept opaque: each may "
     "raise anything.")

prop("C08", "Only complete revisions count as backups",
     "Whether the SLA is met, which tags were backed up when, what the status reports as the last "
     "backup, and which server has most backups of its own is judged by complete revisions only; an "
     "interrupted backup never counts. The automatic clean-up of a repository removes the incomplete "
     "local revisions and no others, never a complete or a remote one.",
     ["histories"],
     "every mixture of complete, incomplete, local and remote revisions",
     "Incomplete revisions exist only while a backup runs or after a crash, exactly when the "
     "decisions matter.",
     [S + "repository.py", S + "schedule.py", S + "daemon/__init__.py", S + "daemon/scheduler.py",
      S + "cli/__init__.py"],
     [("get_history(clean=, local=)", "repository.py"), ("sla_overdue, last_by_tag, _clean",
                                                        "repository.py"),
      ("status()", "daemon/__init__.py"), ("_wait_for_leader", "daemon/scheduler.py")],
     "provenance analysis: every revision read in these decisions is traced to the collection it "
     "was taken from and the conditions its members satisfy",
     "All paths of sla, last_by_tag, Schedule.next, status, check, _wait_for_leader and _clean.")

prop("C09", "Expiry never removes what the schedule or the user wants kept",
     "Expiry takes a tag of the current schedule off exactly the revisions that are older than "
     "keep times the interval and not among the newest keep revisions with that tag. Other tags are "
     "taken off if they are neither manual nor in the schedule, and exactly the revisions are removed "
     "that have no tags left. Expiry judges the revisions as read under the repository lock, and "
     "changed tags are written to disk.",
     ["histories", "inputs"],
     "every history, every schedule (keep, interval), every mix of schedule, former and manual tags",
     "Tests expire a few hand-made histories; off-by-one and boundary errors of the rules depend on "
     "the exact number and age of revisions.",
     [S + "schedule.py", S + "repository.py", S + "revision.py"],
     [("expire", "schedule.Schedule.expire"), ("tags(autoremove)", "repository.Repository.tags"),
      ("filter_schedule_tags", "revision.py")],
     "path-condition analysis: each removal of a tag or revision against linear normal forms of the "
     "age and position conditions and a truth table of tag membership",
     "All paths of Repository.expire and tags. Conditions that are no linear arithmetic over now, "
     "timestamp, keep and interval are left undecided, not reported.")

prop("C10", "An RBD backup is complete only after it was compared with its source",
     "A backup of an RBD image marks its revision complete and reports success only if comparing "
     "the new revision with the snapshot it was made from found no difference; differences are "
     "reported to the repository. A backup that is not completed removes its revision and reports "
     "failure. If the chunk store fails during the backup, all local revisions become distrusted.",
     ["inputs", "fault_sequences"],
     "every image content and every failure of the chunk store at any point of a backup",
     "Tests compare a few contents; a comparison that reads the wrong place or whose result is lost "
     "shows only once a backup is really damaged.",
     [S + "rbd/__init__.py", S + "utils.py", S + "report.py"],
     [("verified", "RBDSource.backup"), ("comparison of sampled blocks", "utils.files_are_roughly_equal")],
     "path-sensitive dataflow: the completion mark is control dependent on the comparison's result; "
     "per-path positions of both files at each comparison",
     "Every path of RBDSource.backup and CephRBD.verify. Which blocks are sampled is random: decided is that "
     "every whole block can be among them, and that there is at least one; contents are symbolic.")

prop("C11", "Distrusted data is rewritten, and trusted again only after verification",
     "Distrusting revisions marks every one of them on disk. While a complete local revision is "
     "distrusted, backups write every chunk anew instead of relying on the ones in the store, and a "
     "backup is followed by verifying a distrusted revision. A revision is marked as verified only "
     "if every chunk it refers to was read successfully, except for those of already verified "
     "revisions; a revision with a broken chunk is removed. If the backend proves unreliable during a "
     "backup, all local revisions become distrusted.",
     ["histories", "fault_sequences", "inputs"],
     "every mix of trust states, every set of shared and broken chunks",
     "Tests verify one revision with one broken chunk; skipping a chunk or losing an error shows only "
     "with particular combinations of shared chunks and trust states.",
     [S + "rbd/__init__.py", S + "rbd/chunked/chunk.py", S + "repository.py", S + "revision.py"],
     [("distrust", "Repository.distrust"), ("verify", "RBDSource.verify"),
      ("force_writes", "RBDSource.open, Chunk.flush")],
     "per-iteration obligations over the loops (every element marked / read), who-may-write query for "
     "the trust attribute, path-condition analysis of the forced mode; provenance of what is distrusted",
     "Every path of Repository.distrust, of every function marking revisions as verified, of "
     "RBDSource.open in its writing modes, Chunk.flush and RBDSource.backup.",
     state=[("trust", "in the .rev file", "revision.py")])

prop("C12", "A differential backup starts from the revision its diff is made against",
     "A differential backup applies a diff between the snapshots of its parent and of the new "
     "revision to a copy of the parent's data, and rejects a diff naming other snapshots. The parent "
     "is an earlier revision of the same server that is not distrusted and whose snapshot exists. "
     "Without such a parent, or if full backups are configured, the backup starts from nothing.",
     ["histories", "inputs"],
     "every history of local, remote and distrusted revisions and every set of existing snapshots",
     "Tests use a parent that is right in every respect; a mismatch between parent data and diff base "
     "yields silently wrong backups only in special histories.",
     [S + "rbd/__init__.py", S + "rbd/rbd.py", S + "revision.py"],
     [("open(revision, 'wb', parent), diff/full", "RBDSource.backup"),
      ("get_parent", "CephRBD.get_parent, Revision.get_parent"),
      ("snapshot names", "CephRBD.diff, RBDDiffV1.integrate")],
     "term agreement between copied base, diff arguments and snapshot names along every path; "
     "path-condition analysis of the parent search",
     "Every path of the functions named. Whether a snapshot's content matches its name is up to Ceph.")

prop("C13", "Diff streams are applied completely and in place, or rejected",
     "Applying an RBD diff stream to an image changes its size to that of each size record, writes all "
     "data of every data record at the record's offset and zeroes exactly the range of every zero "
     "record, in the order of the stream; a valid stream, also one without data, is accepted. A stream without a valid header, with an unknown record or "
     "that stops before its end record is rejected with an error.",
     ["inputs"],
     "every diff stream: any sequence and size of records, truncated at any point",
     "Tests use one or two tiny hand-made streams; streams with large records, holes on file systems "
     "without hole punching or cut off between records need not occur there.",
     [S + "rbd/rbd.py", S + "utils.py"],
     [("parser", "RBDDiffV1.read_record, read_w, read_z, read_s, read_e, read_header"),
      ("application", "RBDDiffV1.integrate"), ("holes", "utils.punch_hole")],
     "path-sensitive typestate over stream and target (record type, bytes left, chunk pending, target "
     "position), with an inductive relation between loop variables and bytes left; constant propagation of whole "
     "small streams, and of one cut at every byte, into images of a few chunks",
     "Every path of parser and application, with symbolic records; sizes are compared as linear terms. "
     "A read that returns fewer bytes than asked for is not modelled as a separate case.")

prop("C14", "Restores and full copies transfer everything",
     "A restore that ends without an error has copied all data of the requested revision, from its "
     "first to its last byte, to the target that was asked for, and cut a longer target to the size of "
     "the revision. A full backup transfers the whole snapshot of its revision in the same way. Only "
     "images of whole chunks are given to backy-extract, which cannot restore others, unless asked for. "
     "Failures to read, to write or of an external restore program end in an error.",
     ["inputs", "fault_sequences"],
     "every size of image and old target, every read or write that fails",
     "Tests restore a few bytes to a new file; chunk boundaries, longer old targets and failing writes "
     "are not sampled.",
     [S + "rbd/__init__.py", S + "file/__init__.py", S + "utils.py"],
     [("restore", "RBDSource.restore, restore_file, restore_stdout, restore_backy_extract, "
       "FileSource.restore"), ("copy", "utils.copy"), ("full backup", "CephRBD.full, FileSource.backup")],
     "path-sensitive typestate of a copy loop (chunk pending, source position, end of source seen, "
     "target trimmed, error swallowed) over the interprocedural paths of restore and full backup; "
     "constant propagation of image sizes to the choice of the restore backend",
     "Every path of the entry points with the chunked File's own reads and writes trusted. Whether an "
     "`rbd export` that dies half-way is noticed is decided by C15.")

prop("C15", "Failures reach the exit status",
     "If the program doing the work of a backup, restore, verification or garbage collection ends "
     "with an error or is killed by a signal, or a subcommand raises an error or refuses its task, the "
     "backy command ends with a nonzero exit status, whichever of several steps failed; the daemon "
     "treats a failed backup program as a failed attempt. Failures of rbd commands are never taken "
     "for success. `backy check` ends with 2 if the SLA of a repository is violated, otherwise with 1 "
     "if it has problem reports.",
     ["fault_sequences", "inputs"],
     "every exit status or signal of every external program, at every step of a multi-step command",
     "Tests replace the external programs by stubs that succeed; the failing combinations (second of "
     "three revisions, death by signal, error in one of several repositories) are not sampled.",
     [S + "cli/__init__.py", S + "source.py", S + "daemon/scheduler.py", S + "rbd/rbd.py",
      S + "rbd/__init__.py", S + "file/__init__.py", S + "utils.py"],
     [("status of the child", "CmdLineSource.invoke, AsyncCmdLineSource.invoke"),
      ("status of the command", "Command.__call__, main, Source.main"),
      ("attempt of a job", "Job.run_backup"), ("rbd commands", "RBDClient._ceph_cli, exists")],
     "abstract interpretation with exit statuses partitioned into {0, failure, signal}: failures "
     "followed along every path (loops to their fixpoint) to the value returned / the error raised; "
     "constant propagation through subcommands whose steps end with given statuses",
     "All subcommands through Command.__call__, the shims around the source programs, both source "
     "programs, Job.run_backup and every external program. The result of gc in the daemon and of the "
     "callback are deliberately not part of the property. Known finding: the status of `rbd export`.")

prop("C16", "The backup loop of a job goes on, in order, with a bounded backoff",
     "The backup loop of a job ends only when it is cancelled: whichever step of an attempt fails, it goes "
     "on, and the next attempt waits for a delay that grows with the number of consecutive failures up to "
     "a fixed bound (success resets it; without failures the schedule decides), never repeating an attempt "
     "without waiting. An attempt holds a worker slot (a fast one if the last complete backup took less than 10 "
     "minutes, a slow one otherwise), and, in this order, removes incomplete revisions, "
     "backs up with the tags the schedule asks for, and only if that succeeded fetches the state of other "
     "servers, expires, pushes, collects garbage and runs the callback. It makes no backup of its own if "
     "another server reports one made within 5 minutes of the planned time, and it makes one whenever it "
     "cannot tell. A request to run at once (API) ends one wait, is then used up, and is not lost if made during "
     "an attempt.",
     ["fault_sequences", "schedules", "histories"],
     "every step failing in every attempt, in any sequence; every cancellation point",
     "Tests run the loop for one or two attempts with one stubbed failure; an error class nobody raised "
     "in a test ends the loop and with it all backups of the job until the daemon is restarted.",
     [S + "daemon/scheduler.py"],
     [("the loop", "Job.run_forever, _increase_backoff, _wait_for_deadline"),
      ("other servers", "Job._wait_for_leader")],
     "abstract interpretation of the loop to its fixpoint with every step failing or being cancelled: "
     "automaton over the steps between two waits; the delay formula is extracted and evaluated; constant "
     "propagation through scripted sequences of attempts",
     "How long the steps take, and what they do inside, is not part of it (C08-C15). Delays are judged from "
     "the extracted arithmetic for 60 consecutive failures.")

prop("C17", "The source is only read, and what a backup borrows it gives back",
     "A backup does nothing to the source image but read it and make and remove snapshots of its own "
     "(named backy-...): images are mapped read-only, snapshots of others are never removed, nor is the "
     "snapshot of the newest local revision while it is needed as a base. However the backup ends, the "
     "snapshots no longer needed are removed, a mapped device is unmapped, external programs that were "
     "started are waited for without blocking on their output, the VM's own pending snapshot requests "
     "(and only those and unreadable ones) are withdrawn, and connections to other servers are closed. "
     "Data is read only from a snapshot that exists, and a difference only against an existing one.",
     ["fault_sequences", "inputs", "histories"],
     "every failing rbd command, system call and consul access at every point of a backup; every set of "
     "snapshots and snapshot requests",
     "Tests use a fake rbd that succeeds; what is left behind when the third of five commands fails, or "
     "when garbage or requests of other VMs are in consul, is not sampled.",
     [S + "rbd/__init__.py", S + "rbd/rbd.py", S + "source.py", S + "daemon/scheduler.py"],
     [("snapshots", "CephRBD.__enter__, create_snapshot, __exit__, _delete_old_snapshots, get_parent"),
      ("mapping, exports", "RBDClient.image_reader, export, export_diff, map"),
      ("children", "CmdLineSource.invoke, RBDSource.restore_backy_extract"),
      ("connections", "Job._wait_for_leader, pull_metadata, push_metadata")],
     "typestate of snapshots, mappings, child processes, requests and sessions over every normal and "
     "exceptional exit (every call may fail); command lines reconstructed and classified",
     "A device whose name could not be determined after mapping, a failing close() and a failing removal "
     "command are outside. Children of the daemon under cancellation: C26.")

prop("C20", "Revision metadata is exchanged with peers without losing either side's data",
     "Push: a revision of another server whose tags were changed here is sent to the server it belongs to, "
     "with the tags known to be there as expectation; only after that server accepted, the new tags are "
     "recorded as the known ones and written, or, if no tags are left, the local record is removed and a "
     "purge is requested. Whatever fails (refused, unreachable, no answer in time) leaves it pending, is "
     "counted as an error and does not stop the other revisions or peers. Pull: each peer is told that the "
     "backup is in use; what is fetched from a peer is marked as that peer's and only replaces or removes revisions of that peer, never own ones or "
     "those of other peers; nothing is removed if the list could not be fetched, unless the peer says that "
     "it has none (404, 403). Only complete revisions are fetched, and a peer is sent this server's own "
     "revisions only. Revisions of servers that are not configured any more are removed. Server "
     "side: tags are changed only if the expected tags of all selected revisions match (otherwise 412 and "
     "no change), and peers can neither change nor purge a backup this server has a job for.",
     ["fault_sequences", "histories", "inputs"],
     "every sequence of accepted, refused, failed and timed-out requests; every set of local and remote "
     "revisions and peers",
     "Tests exchange a few revisions between two servers with one failure each; a timeout in the middle, "
     "equal uuids on several servers or a failure after a removal are not sampled.",
     [S + "daemon/scheduler.py", S + "daemon/api.py", S + "repository.py"],
     [("push", "Job.push_metadata, _push_metadata_single"),
      ("pull", "Job.pull_metadata, _pull_metadata_single, Client.get_revs"),
      ("compare and set", "Repository.tags, BackyAPI.put_tags, run_purge, get_backup")],
     "typestate per revision over the push loop with every failing call; dominance of removals and writes "
     "by origin conditions (collections traced to the history with their filter conditions); constant "
     "propagation through push and pull on small histories, with stand-ins for the peers",
     "Revisions that are equal in uuid but of different peers are refused, not merged. The URL and JSON "
     "agreement of both sides is C21.")


prop("C18", "One daemon at a time, with the configured number of backups at once",
     "The daemon works - reads its jobs, starts tasks, takes signals - only while it holds an exclusive "
     "lock on a file named after its base directory, taken at start and kept until it ends; a daemon that "
     "does not get the lock exits. Slow and fast backups each run with exactly as many slots as "
     "worker-limit says; both are created together, when there are none yet or the limit changed, and are "
     "left alone by a reload that does not change it.",
     ["schedules", "histories"],
     "every interleaving of two daemons starting; every sequence of reloads",
     "Tests start one daemon (or two in sequence) and reload with one changed value; that nothing happens "
     "before the lock, on every path, is not visible to them.",
     [S + "daemon/__init__.py"],
     [("single instance", "BackyDaemon.lock, start"), ("slots", "BackyDaemon._apply_config")],
     "typestate of the lock file over every path through start(); monitor over creation and comparison of "
     "the semaphores in _apply_config()",
     "A changed base-dir on reload is not locked again; backups that run while the limit changes keep "
     "their old slot (documented in the code). Which slot a backup takes: C16.")

prop("C25", "A reload makes the running daemon follow its configuration file",
     "A reload (SIGHUP or the API) reads the configuration, applies it, and tells the API server, in this "
     "order. Every setting is taken from the file anew, without depending on its previous value; unless told "
     "otherwise the command line reaches the API at its first address. New jobs are configured and started, changed ones are stopped, configured with the new values and started "
     "again, unchanged ones are not disturbed, and jobs that are not configured any more - only these - "
     "are stopped and forgotten. A configuration that could not be applied is not remembered as the one in "
     "use. Known schedules are changed in place, so that unchanged jobs follow them too. The API takes "
     "over the new tokens, serves new addresses, stops serving removed ones and leaves the others alone; "
     "a reload that happens while it does so is not lost. The backups without a job are those directories "
     "of the base directory that no job is configured for at the moment. A reload that fails ends the "
     "daemon, as SIGINT and SIGTERM do.",
     ["histories", "schedules", "inputs"],
     "every sequence of configurations and every interleaving of reloads with the API's reconfiguration",
     "Tests reload once with one changed value; the interleaving that loses a reload or a combination of "
     "removed, changed and unchanged jobs is not sampled.",
     [S + "daemon/__init__.py", S + "daemon/api.py", S + "daemon/scheduler.py", S + "schedule.py"],
     [("reload", "BackyDaemon.reload, _read_config, _apply_config, api_server_loop"),
      ("API", "BackyAPI.reconfigure"), ("jobs", "Job.configure"), ("schedules", "Schedule.configure")],
     "monitors over the paths of each step: order and effects per element of the compared collections "
     "(membership facts, filters and set differences), provenance of every setting from its key; constant "
     "propagation through applying a configuration and through BackyAPI.reconfigure on small configurations",
     "Rewriting of the jobs' files on disk after a schedule-only change and locking of a changed base "
     "directory are outside.")


prop("C19", "API requests reach handlers only with a configured token",
     "Every request to the API reaches a handler only if it presents one of the tokens in use as bearer "
     "token in the Authorization header; all other requests (no header, another scheme, an unknown or "
     "empty token) are refused before anything is done for them. There is no route around the check. What "
     "a handler answers or raises reaches the client as it is. Tokens and Authorization headers are not "
     "written to the log. No file name is made of data of a request: backups are looked up by their name "
     "among those the daemon knows.",
     ["inputs", "histories"],
     "every request, header and set of tokens",
     "Tests send a request with a good and one with a bad token to one route; they do not show that "
     "every route is behind the check and that no path of the check leads around it.",
     [S + "daemon/api.py"],
     [("authentication", "BackyAPI.require_auth, __init__ (middlewares)"),
      ("logging", "BackyAPI.log_conn"), ("routes", "BackyAPI.__init__"),
      ("lookup", "BackyAPI.get_backup, run_purge, touch_backup ...")],
     "dominance of every call of the next handler by the token check on all paths through the "
     "middlewares; taint of request data to file system calls and of tokens to log calls",
     "TLS and the strength of tokens are outside, as is the server name a token stands for.")

prop("C21", "Client and server of the API agree on every request",
     "Each call a client of the API makes - for the command line and for other servers - matches a route "
     "of the server in verb, path and parameters; query and body are sent under the keys the server reads "
     "and with the meaning it gives them; what is read from the answer is in it. The server answers "
     "success only after the effect it stands for (reload, run, purge, touch, tags changed), and a client "
     "raises an error for any other answer. Requests carry the configured token, go to the configured URL "
     "and have a finite timeout. A server hands out only its own revisions, after re-reading them. The "
     "status filter is never sent empty-valued, and asking for one job asks for exactly that job.",
     ["inputs", "fault_sequences"],
     "every call with every argument; every answer",
     "Tests run each call once against the real server or against canned answers; a parameter that is "
     "ignored, an error that is not raised or success before the effect go unnoticed for other inputs.",
     [S + "daemon/api.py", S + "cli/__init__.py", S + "daemon/scheduler.py", S + "daemon/__init__.py"],
     [("client", "Client.*"), ("server", "BackyAPI.*"), ("command line", "CLIClient.*"),
      ("job names", "Job.push_metadata, pull_metadata, BackyDaemon.status")],
     "matching of the extracted request table of the client with the route table of the server and the "
     "keys each handler reads and answers, on all paths; order of effect and answer per handler; constant "
     "propagation from client methods through the route into the handler",
     "Authentication is C19; what an exchange with peers does with the answers is C20.")

prop("C22", "A command works on exactly what its command line names",
     "Every subcommand's options are the parameters its implementation takes; the general options "
     "(configuration, directory, jobs, verbosity) reach the command and nothing else. Without a job "
     "filter a command works on the repository at the given path, with one on all configured jobs whose "
     "name matches and on no other; a filter that matches nothing is an error, and histories are loaded "
     "before use. rm, distrust, verify, restore, tags, log and rev-parse act on all and only the "
     "revisions of the given spec in each selected repository, report commands on the named reports or "
     "on all of them. Nothing selected is skipped. tags hands on action, tags, expectation, --autoremove "
     "and --force unchanged; gc expires only with --expire (and --local, as the "
     "other servers are not asked) and before collecting; backup creates and "
     "writes a revision with the given tags (validated unless --force) and has exactly that one backed "
     "up, or asks the daemon with --bg or several jobs. rm and reports-delete need an explicit selection.",
     ["inputs"],
     "every combination of options and arguments of every subcommand",
     "Tests call some subcommands with some options and a mocked implementation; an option that is "
     "dropped, a spec applied to the wrong repository or a skipped revision shows only in combinations.",
     [S + "cli/__init__.py"],
     [("parser and dispatch", "main, Command.__call__"), ("selection", "Command.get_repos"),
      ("subcommands", "Command.*")],
     "comparison of the extracted argparse table with the signatures it dispatches to; path-sensitive "
     "analysis of each command with symbolic options, following selections to the operations on them; "
     "constant propagation through subcommands with constant options (what is passed on)",
     "What a spec selects and the effect of the operations are other properties' matter; exit codes "
     "are C15. Two known findings: --dry-run is accepted but ignored, init is declared but missing.")

prop("C27", "Of the servers that share a job, one makes the backup",
     "Before a scheduled backup the other servers are asked about the job. If a reachable one has more complete "
     "backups of its own than this server has, this server follows the one with the most: it makes no own backup if "
     "the leader's last backup is less than five minutes before the planned time or later, makes one at once if the "
     "leader has stopped or has its next backup more than five minutes after the planned time, and otherwise waits "
     "and asks again, until the leader is done, stops, fails to answer, or a run is requested (in all but the first "
     "case the backup is made here). Servers that cannot be reached or do not know the job are left out and do not "
     "keep others from being followed. What a server reports of a job is that of its repository: the number of "
     "complete backups of its own, the time, tags and duration of the newest complete backup, the SLA, the number of "
     "tag changes not pushed yet, and the job's state and next run; a filter selects the matching jobs.",
     ["fault_sequences", "histories", "inputs"],
     "any number of peers, each of them down, without the job, or with any number of backups and in any state, "
     "changing while they are followed; any history of own and fetched, complete and incomplete backups",
     "Which peer is followed depends on the answers of all of them; tests have one or two that answer. If the "
     "comparison goes wrong either all servers back up the same machine at once or none does.",
     [S + "daemon/scheduler.py", S + "daemon/__init__.py", S + "daemon/api.py"],
     [("following", "Job._wait_for_leader, ClientManager.__iter__"), ("status", "BackyDaemon.status, "
      "Repository.get_history, Revision.pending_changes")],
     "constant propagation on abstract peers and histories: every combination of up to three peers (down, slow, "
     "without the job, fewer / as many / more backups) and every order of the times in a status; the folded answer "
     "and what was asked and waited for are compared with the definition",
     "times are seconds on a line, the boundary at exactly five minutes is left open; what the servers do with the "
     "answer is C16's, the requests themselves C21's")

prop("C29", "backy and the source programs understand each other",
     "The command line backy runs for backup, restore, verify and gc of a source is one that the source "
     "program's parser accepts and that makes it do that operation, on the revision with that uuid, in "
     "that repository (-C), with the task id of the caller and all options of the restore; each restore "
     "option arrives in the program with the value it had. The program of the source's type is run, and "
     "finds repository path, source configuration and schedule in the configuration file where backy "
     "wrote them, whatever was there before. An operation that fails in the program is never reported as success.",
     ["inputs"],
     "every operation, source type, revision and restore option",
     "Tests check the command lines and the parser separately, with literal lists; they stay green if one "
     "side and its test change together, or for options and values they do not use.",
     [S + "source.py", S + "rbd/__init__.py", S + "file/__init__.py"],
     [("caller", "CmdLineSource, AsyncCmdLineSource"), ("program", "Source.create_argparse, Source.main"),
      ("options", "RestoreArgs.to_cmdargs, setup_argparse, from_args"),
      ("configuration", "CmdLineSource.to_config, from_config")],
     "extraction of the command words on all paths and abstract evaluation of the program's extracted "
     "argparse table on them; path-sensitive analysis of the program's dispatch; constant propagation of "
     "every restore backend and several targets through both programs, and of the configuration's path",
     "Which exit status means what on both sides is C15.")

prop("C26", "Stopping a job or the daemon ends what it runs",
     "A task of the daemon that is cancelled - because its job was changed or removed, or because the daemon "
     "ends - ends with that cancellation wherever it waits: no handler swallows it or turns it into another "
     "error. A program it waits for (source program, callback) is sent a signal before. Stopping a job "
     "cancels its task, and it can be started again; starting it starts its loop once and remembers the "
     "task. Terminating the daemon cancels every task, and the event loop is stopped then and only then. "
     "Source programs run in a session of their own, so signals to the daemon do not reach them directly. "
     "No coroutine of the daemon waits in a way that keeps the others from running (sleeping, waiting for a "
     "program).",
     ["interleavings", "schedules", "fault_sequences"],
     "every await at which the cancellation can arrive, in every coroutine the daemon works with",
     "Tests cancel one task at one place; a handler that swallows the cancellation elsewhere leaves backups "
     "running beside their successors, or a daemon that does not end.",
     [S + "daemon/__init__.py", S + "daemon/scheduler.py", S + "source.py", S + "utils.py"],
     [("tasks", "Job.start, stop, run_forever; BackyDaemon.terminate, shutdown_loop"),
      ("programs", "AsyncCmdLineSource.invoke, Job.run_callback"),
      ("loops", "BackyDaemon.purge_old_files, purge_pending_backups, api_server_loop")],
     "exception-flow analysis with a cancellation injected at every await; typestate of the spawned "
     "programs; constant propagation through terminate(), stop() and start() on abstract tasks",
     "File system operations and lock waits of the daemon do block it for their duration. Whether the "
     "programs obey the signal is outside; failing clean-up code may replace the cancellation.")

prop("C34", "What backy asks of Ceph is what it was told to do",
     "Every operation of the RBD client runs exactly the rbd command it stands for, on the image, snapshot "
     "or device it was given: creating, removing and listing snapshots, info, map (read-only if asked), "
     "unmap, export, and export-diff from the old snapshot to the new one. After mapping, the device used is "
     "that of exactly this pool, image and snapshot, in the list formats of jewel, luminous and nautilus; if "
     "it cannot be told, the operation fails and the image is unmapped again. An image counts as missing only "
     "if rbd says so (exit code 2); other failures stay failures. A source is ready iff its image exists. "
     "When a snapshot was created for a backup, a snapshot of exactly this name exists: made locally, or - "
     "with a VM and a consul token - requested from the VM and waited for, made locally if the VM does not "
     "make it in time.",
     ["inputs", "fault_sequences"],
     "every list of mappings and snapshots, exit code and point in time at which the VM makes the snapshot",
     "Tests run against a fake rbd with one image and a consul that answers at once; similar names, other "
     "pools, other exit codes and a VM that answers late or never are not sampled.",
     [S + "rbd/rbd.py", S + "rbd/__init__.py", S + "utils.py"],
     [("commands", "RBDClient._rbd, exists, map, unmap, snap_create, snap_ls, snap_rm, export_diff, export"),
      ("snapshots", "CephRBD.create_snapshot, TimeOut"), ("readiness", "CephRBD.ready")],
     "constant propagation through the client on an abstract cluster (JSON answers in the formats of the "
     "releases, failing commands, consul as a dictionary, time passing only in sleep); the extracted "
     "commands and results are compared with the operation's meaning; exit codes by path facts",
     "Releases after nautilus are not supported by the code. What happens to snapshots, requests and "
     "mappings in the end is C17.")

prop("C24", "The daemon deletes only what was abandoned or is pending",
     "On its own the daemon removes a directory only if it is a real directory (no symbolic link) "
     "directly in the base directory in which nothing - neither the directory nor any entry, however "
     "deep, links themselves instead of their targets - was modified within the last 93 days; such "
     "directories are removed. Pending garbage collections are done for exactly the directories with a "
     "pending mark that no configured job takes care of, with the source configuration stored in them. "
     "The mark is removed only after the garbage was. Both loops are started with the daemon, wait "
     "between scans, and go on whatever fails.",
     ["inputs", "fault_sequences"],
     "every content of the base directory and every failing step",
     "Tests purge one flat directory with one old file; deep changes, links, unreadable entries and "
     "failures in one round are not covered, and a wrong answer destroys a backup.",
     [S + "daemon/__init__.py", S + "utils.py", S + "rbd/__init__.py", S + "file/__init__.py",
      S + "repository.py"],
     [("abandoned", "BackyDaemon.purge_old_files, has_recent_changes, is_dir_no_symlink"),
      ("pending", "BackyDaemon.purge_pending_backups, Repository.set_purge_pending"),
      ("collection", "RBDSource.gc, FileSource.gc")],
     "guarded-effect analysis: the branch facts on every path to a removal; inductive argument for the "
     "recursion (each False answer implies that every entry was answered False); constant propagation "
     "through one round of each loop on small directory trees",
     "Changes made while the daemon is scanning are outside. A configured job whose directory is not "
     "touched for 93 days is removed as well, which the code documents as intended.")

prop("C23", "What is written to a repository is what is read from it",
     "Reading a revision's metadata file gives a revision with the same uuid, timestamp, stats, tags, "
     "original tags, server and trust as the one written; files of older versions lacking some of these "
     "are read with the defaults (no stats, no tags, local, trusted). The file is named after the uuid, in "
     "the repository. After a scan the history has exactly one revision per metadata file, without "
     "symbolic links, oldest first, each also found by its uuid. Removing a revision removes its file; one "
     "of another server is marked by losing its tags instead, unless forced. The selections of complete "
     "and of local revisions contain exactly those. Problem reports are stored and listed under their id, "
     "with both differing chunks, each under the hash of its own data.",
     ["inputs"],
     "every content of the attributes and of the repository directory",
     "Tests write and read a few literal revisions; a field that is only written, read from another key, "
     "or lost on one path is noticed only when the history is needed.",
     [S + "revision.py", S + "repository.py", S + "report.py"],
     [("metadata", "Revision.to_dict, from_dict, load, write_info, info_filename"),
      ("history", "Repository.scan, get_history, find_by_uuid"), ("removal", "Revision.remove"),
      ("reports", "ProblemReport, ChunkMismatchReport, Repository.scan_reports, add_report")],
     "two-sided comparison of the extracted writer and reader (attribute - key - attribute), and "
     "path-sensitive analysis of scan, selections and removal with symbolic state",
     "That YAML reproduces the values dumped is assumed (safe_dump and safe_load, see C28).")

prop("C30", "A revision specifier selects exactly the revisions it describes",
     "all, clean, local, remote, tag:, trust: (in any case) and server: select exactly the revisions of the "
     "history with that attribute, oldest first; a number n selects the n-th newest, counted from 0, and "
     "nothing else if there are fewer; last and latest are the newest, first the oldest. not(..) is the "
     "complement in the history, first(..), last(..) and reverse(..) what they say; a comma unites without "
     "duplicates, & intersects and binds tighter, parentheses group; a range contains everything between "
     "both ends, in either order, ends included, missing ends being first and last. A time in a range is "
     "the place between the revisions before and after it, in local time unless it has a zone. What is "
     "not found is an error.",
     ["inputs"],
     "every combination of attributes and every production of the language",
     "Tests try some specifiers on histories of three revisions; wrong precedence, ends of ranges, "
     "selections by the wrong attribute and missing revisions show on other histories only - in rm and "
     "distrust.",
     [S + "repository.py", S + "utils.py"],
     [("language", "Repository.find_revisions"),
      ("single revisions", "Repository.find, find_by_number, find_by_uuid, find_by_tag, find_by_function"),
      ("ranges", "Repository.index_by_token, index_by_date"),
      ("lists", "unique, duplicates, list_get, list_split, list_rindex")],
     "partial evaluation of find_revisions for one specifier per production; the summary term (an "
     "expression over the history) is compared with the meaning of the specifier on an abstract history "
     "with one revision per combination of attributes",
     "Specifiers are those listed in the rule: every production, nested once or twice. Histories with "
     "equal timestamps are left out of ranges by time.")

prop("C31", "The next backup and the SLA follow the schedule's intervals",
     "A duration in a schedule means its number of weeks, days, hours, minutes or seconds. For a tag the next "
     "regular backup is due at the first time after the given one that has the job's spread as its place in the "
     "tag's interval: it is in the future, and no such time is skipped. A job's spread depends on its name and "
     "schedule only, is the same after a restart, and lies between zero and its longest interval. The next regular backup of a job is at the "
     "earliest time any tag is due and has exactly the tags due then. A tag of the schedule that no complete backup "
     "within its interval has is missed (ad-hoc tags, tags of incomplete backups do not count); missed tags are "
     "added to the next backup, and if the job has any history and the regular backup is more than five minutes "
     "away, a backup with the missed tags is made at once. The SLA is violated exactly if the newest complete "
     "backup is older than 1.5 times the shortest interval, however many incomplete ones are newer.",
     ["inputs"],
     "any schedule, spread, time, and history of complete and incomplete backups with any tags",
     "Whether a machine is backed up often enough, and whether somebody is told when it is not, is arithmetic on "
     "times and tag sets: an off-by-one skips an interval or loops without pause, one set too many hides a missed "
     "backup. Tests check a few times in 2015 with one or two tags.",
     [S + "schedule.py", S + "repository.py", S + "daemon/scheduler.py"],
     [("due times", "Job.spread, parse_duration, next_in_interval, Schedule._next_ideal, Schedule.next"),
      ("missed backups", "Schedule._missed, Repository.last_by_tag"),
      ("SLA", "Repository.sla_overdue, Repository.sla"), ("order", "Schedule.sorted_tags")],
     "constant propagation over abstract times: the schedule functions are analysed on one abstract input for each "
     "order / age relation they can observe, the folded answer is compared with the definition",
     "time is seconds on a line; functions whose answer does not fold to a constant are reported as undecided, "
     "not as violations; calendars and time zones play no part")

prop("C32", "A chunked image reads and writes like a plain file",
     "Whatever its length, position and the place of chunk boundaries, reading from a chunked image gives exactly "
     "the bytes at the position up to the length asked for or the end, and moves the position by as many; writing "
     "replaces exactly the bytes at the position, leaves all others as they were, and grows the image only beyond "
     "its end. Seeking relative to the start, the position or the end (backwards) answers and sets the position, a "
     "place before the start is an error, and a gap behind the end reads as zeroes. Cutting keeps what was before the "
     "new end and nothing behind it, also when it grows again. All this holds however many "
     "chunks are touched, also when they had to be flushed from memory in between. When the image is closed its "
     "metadata has the length and, for every chunk, the hash of that chunk's data; opened again it has the same "
     "content. An image not opened for writing is never changed, one that does not exist is not opened for reading.",
     ["inputs", "histories"],
     "one representative per class of length, position and size relative to chunk boundaries",
     "Backups are patched into images at arbitrary offsets and restored from them; a wrong offset, a lost chunk when "
     "memory is freed or a stale mapping corrupts an image whose chunks are all valid. Tests write a few aligned "
     "blocks.",
     [S + "rbd/chunked/file.py", S + "rbd/chunked/chunk.py"],
     [("positions", "File.read, write, seek, tell, _current_chunk"),
      ("chunks", "Chunk.read, write, flush"), ("mapping", "File.__init__, flush, _flush_chunks, close")],
     "constant propagation over an abstract store (hash - content) with the chunk size analysed as 4: every "
     "operation from one abstract state per class of positions and lengths, outcome compared with its meaning",
     "What is read from the store is the content of the hash (C01, C02, C04); compression and hashing are "
     "uninterpreted and invertible. Sequences longer than seek, read, write, flush, reopen are not enumerated: the "
     "operations are shown to preserve the correspondence of image and bytes.")

prop("C33", "Changing tags does exactly what was asked for, or nothing",
     "Setting, adding and removing tags gives every selected revision exactly the given tags, these in addition to "
     "its own, or its own without these, and writes it; other revisions, and the record of the tags last known at a "
     "revision's server, stay as they are. Tags that are neither manual (manual:...) nor in the schedule are refused "
     "when set or added, unless forced; they can always be removed. With an expectation nothing at all is changed "
     "unless all selected revisions have exactly the expected tags, and that is reported as a failure. A revision "
     "left without tags is removed exactly if autoremove was asked for. The tags command uses the tags, expectation "
     "and flags of its command line and its exit status says whether the tags were changed.",
     ["inputs"],
     "every action with and without expectation, force and autoremove, on any selection of revisions with any tags",
     "Tags decide what expiry removes. Tests change the tags of one revision; a check made while changing instead "
     "of before, or an expectation tested on one revision only, shows with several.",
     [S + "repository.py", S + "cli/__init__.py", S + "revision.py"],
     [("change", "Repository.tags"), ("validation", "Repository.validate_tags, filter_schedule_tags"),
      ("command", "Command.tags")],
     "constant propagation over abstract tag sets: Repository.tags, validate_tags and the tags command on each "
     "combination of action, flags, tags and selection; effects per path compared with the definition",
     "find_revisions is replaced by its result (C30); three revisions, selections of up to three: the code treats "
     "revisions alike, so that more do not add cases.")
