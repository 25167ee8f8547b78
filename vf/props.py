"""The properties, one place. tools/gen.py writes properties.jsonl and MANIFEST.json from it."""

PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe=None, bounds="", na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, bounds=bounds, na=na))


P("C01", "An interrupted backup leaves the old or the new backup, never less",
  "If a backup is cut short at any moment, by the process being killed or by the machine losing power, the repository afterwards opens normally and its latest backup is entirely the one before or entirely the new one, with everything it refers to restorable and passing the integrity check. A backup that reported success survives a power loss. The next backup after an interruption succeeds and is complete.",
  ["crash_points", "histories"], "every point between two file system operations of a backup (first, second, with changed, removed, new and hard-to-store files), and after a power loss every combination of unsynced changes that reached the disk or did not",
  "Tests never interrupt a run and never lose unsynced data; they run against a page cache which hides a missing or misordered fsync.",
  ["src/repository.c", "src/metadata.c", "src/backup.c", "src/safe-wrappers.c"],
  [("temporary file, fsync, rename, fsync of the parent directory", "src/repository.c repoWriterClose; src/safe-wrappers.c sRename, sFclose"), ("metadata written last", "src/nb.c backup()")])

P("C02", "An I/O error during a backup is reported and damages no earlier backup",
  "When any system call of a backup fails, at any point and for whatever reason, the program either copes and the backup is complete, or it ends with a nonzero exit code and an error message. In both cases everything backed up earlier stays restorable and passes the integrity check, and a later backup succeeds. A backup is never reported as successful when part of it was not stored.",
  ["fault_sequences", "histories"], "every system call of a backup failing once, or from there on, with the error being symbolic in position; also failures inside buffered writes and at close",
  "The test suite cannot make the kernel fail an arbitrary call; it covers a handful of missing or unreadable files.",
  ["src/safe-wrappers.c", "src/repository.c", "src/backup.c", "src/metadata.c", "src/garbage-collector.c", "src/search.c", "src/file-hash.c"],
  [("every wrapper checks its call and dies", "src/safe-wrappers.c"), ("metadata replaced atomically after all files", "src/nb.c, src/metadata.c metadataWrite")])

P("C03", "Restoring gives back exactly what was backed up",
  "For every set of files, directories and symlinks that was backed up, restoring it after it was deleted or altered brings back each path with the same type, content, size, owner, group, permission bits, modification time and link target, for an unprivileged user, too, as far as the files belong to them. This holds at all file sizes (empty, stored inside the index, stored as separate files) and for all values of these attributes.",
  ["inputs", "histories"], "all contents, modes including setuid, setgid and sticky, owners, modification times and link targets; path missing, altered in any subset of its attributes, or replaced by another type before the restore",
  "Tests compare fixed examples as an unprivileged user: they cannot set owners, and sample a few modes, sizes and times.",
  ["src/restore.c", "src/backup.c", "src/backup-helpers.c", "src/repository.c", "src/metadata.c"],
  [("state recorded at search time", "src/backup.c"), ("content, then owner, then mode, then time", "src/restore.c finishRestoreRecursively")])

P("C04", "Every earlier backup of tracked files can be restored",
  "For files under the track policy, restoring backup number N gives exactly the state those files had at that backup, for every N in the history: content, attributes, type, and whether the path existed at all. Later backups, whatever they add, change or remove, never alter what an earlier one restores to.",
  ["histories", "inputs"], "all histories of up to three backups over the states absent, small file, stored file, symlink and directory, with symbolic attributes, and every backup number",
  "Tests fix a few hand-written histories; the number of state sequences grows exponentially and the history merging code has many cases.",
  ["src/backup.c", "src/metadata.c", "src/restore.c", "src/backup-helpers.c"],
  [("history points prepended and backup ids counted up on load", "src/backup.c, src/metadata.c"), ("lookup by backup id", "src/restore.c, src/backup-helpers.c")])

P("C05", "Copy keeps files that vanished, mirror forgets them",
  "A path under the copy policy stays restorable in its latest saved state after it disappears from the system, however many backups follow. A path under the mirror policy disappears from the backup together with everything below it, and for both only the latest state is kept.",
  ["histories", "inputs"], "all histories of up to three backups of appearing, changing, vanishing and type-changing paths, for copy and mirror, at several depths",
  "Tests exercise selected histories with fixed trees.",
  ["src/backup.c"], [("handling of not-found nodes by policy", "src/backup.c")])

P("C06", "Changing the policy or the configuration never loses a file's latest state",
  "When a path's policy is changed between backups, whether directly or through its parent, the latest saved state of every path which is still configured stays restorable, and from then on the path behaves according to its new policy: what exists is saved, and what is gone is kept, forgotten or kept in the history. Leaving the track policy gives up older states. Paths which no configured path covers any more, or which became ignored, leave the backup.",
  ["configurations", "histories"], "all ordered pairs of policies and of ways to configure a path (itself, through its parent, not at all, ignored), over histories of three backups in which a file, link or directory with or without content appears, changes, changes type or vanishes before, at and after the switch",
  "The table of policy pairs times node states is larger than what tests enumerate, and each entry has follow-up backups.",
  ["src/backup.c"], [("policy change handling", "src/backup.c"), ("policy inheritance", "src/search-tree.c")])

P("C07", "Every change is noticed, and without changes nothing is written",
  "If a file's size, modification time, owner, group, permission bits, type or link target differs from the last backup, the next backup records the new state. If nothing differs, the backup reports nothing to do and leaves the repository byte for byte as it was.",
  ["inputs", "histories"], "all old and new values of each attribute (full width), any subset changing at once",
  "A comparison that looks at only part of a value, or is skipped for one type, agrees with all sampled values.",
  ["src/backup.c"], [("comparison of each attribute with the recorded one", "src/backup.c, src/backup-helpers.c")])

P("C08", "Stored files are shared safely: no content is ever overwritten",
  "Files with equal content are stored once, and files with different content never share storage even if their hash and size collide, so that each is restored with its own content. A stored file is never overwritten or modified by a later backup. If no free place remains the backup fails with an error and without altering anything saved before. (Whether one file changed is itself decided by its hash; this is about different files.)",
  ["inputs", "histories"], "all contents of bounded size and all ways in which their hashes may collide (the hash is an unconstrained function), including exhaustion of all slots",
  "Hash collisions cannot be produced by tests with the real hash; the test suite plants single prepared ones.",
  ["src/repository.c", "src/backup.c", "src/file-hash.c"], [("byte comparison before reuse, slot counter otherwise", "src/repository.c repoRegularFileExists; src/backup.c")])

P("C09", "Nothing is changed unless the user confirms",
  "A backup or a restore with changes asks first, and only the answers y or yes let it go ahead; no, n and end of input end the program with a failure exit code and leave all files and the repository as they were. Any other answer asks again.",
  ["inputs"], "all input texts of bounded length, for backup and restore",
  "Tests feed a few answers; acceptance of an unintended one is invisible to them.",
  ["src/nb.c", "src/safe-wrappers.c"], [("prompt loop", "src/nb.c ensureUserConsent; src/safe-wrappers.c sReadLine")])

P("C10", "A backup never changes what it saves",
  "Whatever the configuration and the file tree, a backup, a garbage collection and an integrity check never create, modify, rename, remove or change attributes of anything outside the repository directory. They also never modify the configuration file.",
  ["inputs", "configurations", "histories"], "all runs of the other backup harnesses, monitored at every mutating file system operation, and symbolic repository path spellings",
  "Tests look only at the files they expect; a stray write elsewhere is not seen.",
  ["src/backup.c", "src/search.c", "src/repository.c", "src/garbage-collector.c", "src/safe-wrappers.c"], [("files opened read-only", "src/safe-wrappers.c sFopenRead"), ("writes only below the repository path", "src/repository.c")])

P("C11", "Garbage collection removes all and only unreferenced items",
  "After a garbage collection, run by itself or after a backup, the repository holds exactly its configuration, index, lock file and the stored files some backup refers to; everything else in it is gone and nothing that is referenced is touched. Symlinks in the repository are removed themselves, never followed. The reported total size of what was removed is right.",
  ["inputs", "histories", "configurations"], "all combinations of stray entries (files, empty and nested directories, symlinks, look-alike names) and spellings of the repository path, with symbolic sizes",
  "Removing too much destroys backups; tests check a handful of stray files at fixed names.",
  ["src/garbage-collector.c", "src/repository.c"], [("set of referenced paths from the index", "src/garbage-collector.c"), ("recursive removal", "src/garbage-collector.c")])

P("C12", "The integrity check reports exactly the damaged paths",
  "The integrity check names every path whose stored content is missing, not a regular file, of the wrong size or different from what was saved, and no other path; it fails if there is one and succeeds if there is none. It checks every point of every history and changes nothing. If the directories of the repository are so damaged that it cannot look, it ends with an error.",
  ["inputs", "histories"], "all single-byte and whole-content alterations, truncations, extensions and removals of stored files shared by several paths and history points",
  "Tests damage a few files in a few ways.",
  ["src/integrity.c", "src/file-hash.c"], [("recomputed hash and size per history point", "src/integrity.c")])

P("C13", "The index survives being written and read",
  "Reading back a written index gives the same paths, histories, policies, attributes, stored-file references and backup times, for every index; only backups which nothing refers to are dropped, and the remaining ones are renumbered in order. Rereading an index and writing it again does not change it further.",
  ["inputs", "histories"], "all values of all fields at full width, in trees with several nodes and history points of every type",
  "Tests use small numbers, where byte order, width and truncation errors stay invisible.",
  ["src/metadata.c", "src/repository.c"], [("fixed width little-endian fields", "src/metadata.c"), ("renumbering of referenced backups", "src/metadata.c metadataWrite")])

P("C14", "A damaged index is rejected cleanly",
  "For arbitrary bytes in the index file, every command either works on what they mean or ends with an error message and a nonzero exit code: it never reads or writes out of bounds, crashes, hangs or modifies anything. This includes truncation at any length and any corrupted field.",
  ["inputs"], "all byte strings of bounded length, all truncation points, and arbitrary corruption of any field of a valid index",
  "A fixed set of broken files is tested; the decoder has a path for every combination of lengths and types.",
  ["src/metadata.c", "src/repository.c"], [("bounds checks on each read", "src/metadata.c readBytes and callers")])

P("C15", "The configuration means what is documented, or is rejected",
  "Every configuration text is either parsed into exactly the rules the documentation describes (policies, paths, regular expression components, ignore and summarize expressions, comments, line endings) or rejected with an error naming the right line before anything is done. No text crashes the program.",
  ["inputs", "configurations"], "all texts of bounded length over all bytes, and structured texts with symbolic lines",
  "The grammar has context (current policy, redefinition, slashes, carriage returns, byte order mark) whose combinations tests sample.",
  ["src/search-tree.c", "src/str.c"], [("line-wise parser", "src/search-tree.c")])

P("C16", "A search visits exactly the configured paths, each with the right policy",
  "A backup considers exactly the paths which the configuration selects, each once and each with the policy of its deepest matching rule; ignore expressions exclude paths unless they are matched explicitly. Symlinks are followed only as parents of configured paths, and special files are never read.",
  ["configurations", "inputs"], "all file trees and configurations from a bounded family: types, names and rules symbolic, any directory order",
  "Tests search one fixed tree with a few configurations.",
  ["src/search.c", "src/search-tree.c"], [("search tree walked along with directories", "src/search.c")])

P("C17", "A restore touches only what it was asked to restore",
  "Restoring a path changes that path, what lies below it and the directories above it, and nothing else, not even other names (hard links) of a restored file. Directories above it are re-created if they are missing or something else is in their place; those under a policy get back their recorded attributes, others are left as they are apart from the modification time. Paths which already have the recorded state are not rewritten, and files which are not part of the backup are left alone. Every path under a policy which is changed is announced before, itself or through a directory which is restored as a whole.",
  ["inputs", "histories"], "every requested path (the whole backup, directories, files, prefixes of names) and all states of the surrounding tree",
  "Tests restore whole trees into empty places and do not look at neighbours.",
  ["src/restore.c", "src/nb.c"], [("restrict restore to the requested subtree", "src/restore.c initiateRestore")])

P("C18", "An impossible restore request fails before anything is modified",
  "A restore of a path that was never backed up, or did not exist at that backup, which includes numbers no backup of a tracked path has, fails with an error message and nonzero exit code and leaves all files and the repository unchanged. So do malformed numbers and paths. Relative paths are taken from the working directory, however long its name is. Restoring everything at such a number changes no tracked path.",
  ["inputs", "histories"], "all backup number texts and path arguments of bounded length, for tracked and untracked paths and short histories",
  "Tests try a few wrong arguments; overflowing, signed or decorated numbers and near-miss paths are many.",
  ["src/nb.c", "src/restore.c", "src/str.c"], [("number parsing", "src/nb.c, src/safe-wrappers.c sStringToSize"), ("path lookup", "src/restore.c")])

P("C19", "A restore replaces a path of another type without following links",
  "If a path changed its type since the backup, restoring it replaces whatever is there by the saved type, and never writes through a symlink or removes anything outside the path itself. The target of a symlink that stands in the place of something saved stays untouched. (Only a symlink to a directory in the place of a saved directory is followed, as it is when backing up what is configured below it.)",
  ["histories", "inputs"], "all pairs of saved and current type, with nested content, dangling links, and links to files and directories",
  "Tests do not restore over symlinks; following one writes to a file outside the restored tree.",
  ["src/restore.c", "src/safe-wrappers.c"], [("type comparison, removal and re-creation", "src/restore.c")])

P("C20", "A failing restore says so",
  "If any system call of a restore or of an integrity check fails, the program ends with a nonzero exit code and an error message, or the restore is complete nevertheless. The repository is never modified by it, and repeating the restore without the failure completes it.",
  ["fault_sequences"], "every system call of a restore or integrity check failing once or from there on",
  "The tests cannot inject failures.",
  ["src/restore.c", "src/safe-wrappers.c", "src/repository.c", "src/integrity.c"], [("every wrapper checks its call and dies", "src/safe-wrappers.c")])

P("C21", "Two commands never work on one repository at the same time",
  "While one command works on the content of a repository, any other command started on it ends with an error and does nothing, whatever the interleaving of their starts and ends. One of several competing commands gets through, and a lock left behind by a dead process never blocks.",
  ["schedules", "crash_points"], "all interleavings, up to a bound on preemptions, of two to three commands at the system calls which touch the lock and the first accesses to the content",
  "Tests run one process at a time.",
  ["src/repository.c"], [("advisory lock on a lock file", "src/repository.c repoLock")])

P("C22", "The printed summary tells the truth",
  "Before asking, a backup prints every configured path that is new, changed, removed, lost or of a changed type since it was last saved, with a marker for what really happened to it, and no path that did not change. Paths below a directory which is itself new, gone or of another type are counted and summed up at it instead; of a directory whose content changed, the changed modification time need not be named. The totals of new, removed and lost items and their sizes add up to what the backup then does, including directories above configured paths, which are not listed; those in which nothing configured is found count as lost. A path which gets another policy is named too, along with the loss of older saved states this causes; below a directory which gets the same policy it may be left out if nothing else happens to it. A total which does not fit ends the backup with an error. Sizes are printed in bytes below 1000, and otherwise cut off after one decimal in the largest unit (up to TiB) in which they are at most 999.9. Restores announce every path under a policy they will change, with a marker for what will happen to it, and nothing which stays as it is.",
  ["histories", "inputs"], "all pairs of states of a small tree under each policy with symbolic sizes; printed markers and totals compared with an independent calculation",
  "Tests compare printed text for fixed scenarios; totals are sums over many cases.",
  ["src/informations.c", "src/nb.c"], [("change summary and printing", "src/informations.c")])

P("C23", "A file that changes while it is being stored is not stored wrongly",
  "If a file grows, shrinks or otherwise changes between being examined and being stored, or disappears, the backup ends with an error or stores content consistent with what it records; it never reports success with a recorded state that fails the integrity check, and never records a file which was modified before the user confirmed the backup with its new content but its former modification time. Earlier backups stay intact.",
  ["schedules", "inputs"], "a change (append, truncate, rewrite, replace, remove) of a file by another process at every point of a backup",
  "Tests do not modify files while a backup runs.",
  ["src/repository.c", "src/backup.c", "src/file-hash.c"], [("size and modification time rechecked while copying", "src/backup.c, src/repository.c, src/file-hash.c")])

P("C24", "Arithmetic on sizes and counts never wraps around",
  "Whenever a sum, product or difference of sizes does not fit its type, or a file is larger than what can be handled, the program ends with an error instead of continuing with a wrong value; otherwise the result is exact. This covers allocation sizes, file sizes and totals up to 64 bits.",
  ["inputs"], "all 64 bit operands of the arithmetic helpers, and sizes up to the 64 bit limit in totals",
  "Tests try the limits and a few values around them.",
  ["src/safe-math.c", "src/allocator.c", "src/informations.c"], [("checked addition and multiplication", "src/safe-math.c"), ("checked allocation sizes", "src/allocator.c, src/safe-wrappers.c")])

P("C25", "Paths are split, joined and compared correctly",
  "Splitting a path, joining it, removing trailing slashes, taking its parent, testing whether it is absolute or contains dots, and testing whether one path lies below another give the documented result for every path. In particular /foo is not a parent of /foobar, and the root directory is handled.",
  ["inputs"], "all strings of bounded length over all bytes, including empty strings and runs of slashes, and strings that are not terminated",
  "Tests list examples; off-by-one errors at slashes and string ends hide between them.",
  ["src/str.c"], [("string view helpers", "src/str.c")])

P("C26", "Path tables behave like maps",
  "A path table returns for every stored key the value stored with it and nothing for every other key, whatever the number and order of insertions, the growth of the table, and however many keys hash alike. The number of entries it reports is right.",
  ["inputs", "histories"], "all sequences of insertions of bounded length with symbolic keys and an unconstrained hash function",
  "Collisions and growth interact; tests insert fixed lists of keys with the real hash.",
  ["src/string-table.c"], [("hash table with chaining and rehashing", "src/string-table.c")])

P("C28", "Buffers and strings keep their content when they are reused",
  "Reusable buffers, string copies and joined strings always have room for what is stored, keep the bytes that were stored in them, and stay valid as long as their owner; requesting a smaller or larger size never corrupts others. Out of memory conditions end the program with an error.",
  ["inputs", "histories"], "all sequences of requests of bounded length with symbolic sizes and contents; allocation failing at any point",
  "Memory errors of a few bytes are invisible in tests without allocator checking at just these sizes.",
  ["src/allocator.c", "src/str.c", "src/safe-wrappers.c", "third-party/CRegion"], [("region and reusable buffer allocators", "src/allocator.c"), ("string duplication", "src/str.c")])

P("C29", "Input lines and numbers are read exactly",
  "A line of input, which ends at a line feed, a carriage return, a NUL byte or the end of input, is returned without its terminator and otherwise unchanged, whatever bytes and however many it has, and the end of input is distinguished from an empty line. A number argument is accepted only if all of it is decimal digits and it fits into a 64 bit integer, and then has exactly that value.",
  ["inputs"], "all input texts of bounded length over all bytes",
  "Tests use a few lines and numbers.",
  ["src/safe-wrappers.c"], [("line reader", "src/safe-wrappers.c sReadLine"), ("number parser", "src/safe-wrappers.c sStringToSize")])

P("C30", "A file's hash depends only on its content",
  "The hash recorded for a file covers all its bytes exactly once and in order, independent of the block size of its file system and of where the file is stored, so that equal content has equal hashes at backup and at every later check. Files are compared for equality exactly.",
  ["inputs", "configurations"], "all contents up to several blocks, block sizes from one byte up, all sizes around block boundaries, the block size differing between the runs",
  "Tests hash files smaller than a block; block loops are exercised once or not at all.",
  ["src/file-hash.c", "src/repository.c", "src/safe-wrappers.c"], [("block-wise hashing loop", "src/file-hash.c"), ("block-wise comparison", "src/repository.c repoRegularFileExists")])

P("C31", "Stored-file names never clash",
  "The name under which a stored file is kept is determined by its hash, size and slot, is different for different combinations, stays inside the repository and never equals the name of one of the repository's own files. Names built from the index match names built while storing.",
  ["inputs"], "all pairs of hashes, sizes and slots at full width",
  "The naming function has 176 bits of input; tests look at three examples.",
  ["src/repository.c"], [("path builder", "src/repository.c repoBuildRegularFilePath")])

P("C32", "Wrong usage is refused without side effects",
  "Any command line other than the documented forms ends with an error message and a nonzero exit code, and so does a repository which does not exist, is not a directory or has no configuration; nothing on disk is modified by it. Documented forms are accepted.",
  ["inputs", "configurations"], "all command lines of up to four arguments with symbolic text, and all states of the repository path",
  "Tests try selected wrong arguments.",
  ["src/nb.c", "src/repository.c"], [("argument handling", "src/nb.c main")])

P("C33", "Rules which match nothing are reported",
  "After examining the file system, a backup warns about each configured path, and each ignore or summarize expression, which matched nothing, naming the line it stands on, and about no other; of a path whose parents matched nothing, the first such parent is named. Configured parents which exist but are no directories, or not only directories, are pointed out.",
  ["configurations", "inputs"], "all subsets of matching rules of a configuration covering all kinds of rules",
  "Tests check the printed warnings of fixed scenarios.",
  ["src/informations.c", "src/search.c", "src/search-tree.c"], [("matched flags on rules", "src/search.c"), ("warnings", "src/informations.c")])

P("C34", "Summarizing affects only what is printed",
  "Adding summarize expressions to a configuration changes neither what is backed up nor how it is stored; only the listing is shortened, and the numbers it shows for a summarized directory cover everything below it.",
  ["configurations", "histories"], "all subsets of directories being summarized, over the tree states of the other backup harnesses",
  "Tests do not compare stored results with and without summaries.",
  ["src/search-tree.c", "src/search.c", "src/backup.c", "src/informations.c"], [("summarize flag", "src/search.c, src/informations.c")])

P("C36", "A read-only repository can be restored from and checked",
  "Restoring and checking integrity work when the repository lies on a read-only file system, with the same result as otherwise, while commands which have to modify it end with an error.",
  ["configurations"], "each command on a read-only file system, with and without a left-over lock file",
  "Tests cannot mount a read-only file system.",
  ["src/repository.c"], [("lock skipped on read-only file systems", "src/repository.c repoLock")])

P("C39", "Repositories stay compatible across versions and machines",
  "The bytes of the index and the place of stored files are those of the documented layout: fixed width little-endian fields in a fixed order and content-addressed names. A repository written by one version reads back with equal meaning in another, and a repository synchronized with a newer copy of it by the documented commands becomes equal to it.",
  ["inputs", "histories"], "indexes with symbolic fields compared with an independent encoder and decoder of the format",
  "Reader and writer can change together without any round trip noticing.",
  ["src/metadata.c", "src/repository.c"], [("writer", "src/metadata.c metadataWrite"), ("reader", "src/metadata.c metadataLoad")])

P("C40", "The number of files which can be handled is not limited by open files",
  "Backups, restores, garbage collections and integrity checks keep only a few files and directories open at the same time: how many depends on how deeply directories are nested, never on how many paths are saved, changed, restored or collected. So they work for any number of paths under the usual limit of open files.",
  ["inputs", "histories"], "all kinds of paths and changes of them, with more paths of each kind than files which may be open",
  "Tests save a few files each, so a file which is left open does not show.",
  ["src/backup.c", "src/search.c", "src/restore.c", "src/repository.c", "src/file-hash.c", "src/garbage-collector.c", "src/integrity.c", "src/safe-wrappers.c"], [("every opened file is closed", "src/safe-wrappers.c sFclose, repoReaderClose, sDirClose")])
