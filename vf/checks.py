from .core import H

CHECKS = {
    "C01": [H("crash.c", covers=["power loss", "process killed", "power loss after success", "finished", "old state", "new state"]),
            H("crash.c", name="first", defs=["FIRST=1"], covers=["power loss", "process killed", "power loss after success", "finished", "no backup", "new state"]),
            H("crash.c", name="track", defs=["POL=\"track\""], covers=["power loss", "process killed", "old state", "new state"]),
            H("crash.c", name="gone", defs=["GONE=\"track\""], covers=["power loss", "process killed", "old state", "new state"]),
            H("crash.c", name="collection", defs=["COLLECT=1"], covers=["power loss", "process killed", "power loss after success", "finished"]),
            H("crash.c", name="twice", defs=["TWICE=1"], tiers=["thorough"], timeout=1500, covers=["power loss", "process killed", "old state", "new state"])],
    "C03": [H("rest.c", covers=["removed", "attributes altered", "content altered", "size altered", "other type"]),
            H("rest.c", name="nested", defs=["NESTED=1", "POL=\"copy\""], covers=["removed", "attributes altered"]),
            H("plain.c", name="unprivileged", covers=["part", "whole"])],
    "C04": [H("hist.c", covers=["restored into nothing", "restored over another state", "path outside of that backup"]),
            H("hist.c", name="alike", defs=["STEPS=2", "NEAR=1"], covers=["restored into nothing", "restored over another state"]),
            H("orphan.c", name="orphan", defs=["TRACK=1"], covers=["in the history", "back"])],
    "C05": [H("hist.c", name="copy", defs=["POL=\"copy\"", "P_COPY=1"]), H("hist.c", name="mirror", defs=["POL=\"mirror\""]),
            H("nested.c", covers=["kept", "forgotten", "in the history", "the rest"]), H("orphan.c", covers=["kept", "back"])],
}

NOT_APPLICABLE = {}
UNCLAIMED = "no check built yet"
CHECKS["C21"] = [H("lock.c", name="three", defs=["PREEMPT=3"], tiers=["quick"], covers=["one worked", "all worked", "stale lock file"], what="two garbage collections and an integrity check", bounds="3 processes, 3 preemptions at the system calls on the lock and the first accesses to content"),
                 H("lock.c", name="pairs", defs=["PREEMPT=3", "NPROC=2", "KINDS=1"], tiers=["quick"], covers=["one worked", "all worked", "stale lock file"]),
                 H("lock.c", name="three-deep", defs=["PREEMPT=4"], tiers=["thorough"], timeout=800, covers=["one worked", "all worked"]),
                 H("lock.c", name="pairs-deep", defs=["PREEMPT=6", "NPROC=2", "KINDS=1"], tiers=["thorough"], timeout=800)]
F_COV = ["no failure", "failure reported", "failure coped with"]
CHECKS["C02"] = [H("fault.c", name="mirror", covers=F_COV), H("fault.c", name="track", defs=["TRACK=1", "SMALL=1"], covers=F_COV),
                 H("fault.c", name="first", defs=["FIRST=1"], covers=F_COV),
                 H("fault.c", name="memory", defs=["OOM=1", "TRACK=1"], covers=["no failure", "failure reported"])]
CHECKS["C20"] = [H("fault_restore.c", name="restore", covers=F_COV), H("fault_restore.c", name="blocks", defs=["SMALL=1"], covers=F_COV), H("fault_restore.c", name="integrity", defs=["INTEGRITY=1", "SMALL=1"], covers=["damage found", "healthy", "failure reported"]),
                 H("fault_restore.c", name="memory", defs=["OOM=1"], covers=["no failure", "failure reported"]),
                 H("fault_restore.c", name="memory-integrity", defs=["OOM=1", "INTEGRITY=1"], covers=["damage found", "healthy", "failure reported"]),
                 H("fault_restore.c", name="no-output", defs=["NOOUT=1"], covers=["failure coped with"])]
CHECKS["C24"] = [H("math.c", name="add", covers=["fits", "overflow"]), H("math.c", name="mul", defs=["MUL=1"], covers=["fits", "overflow"]),
                 H("totals.c", covers=["new", "gone", "lost", "overflow"]), H("sums.c", name="sums-gc", defs=["GC=1"], covers=["fits", "overflow"]), H("sums.c", name="sums-integrity", covers=["fits", "overflow"])]
CHECKS["C13"] = [H("ids.c", name="many", covers=["after one more", "as it was"]), H("index.c", covers=["unreferenced backup dropped", "all backups referenced"])]
CHECKS["C14"] = [H("broken.c", name="truncated", defs=["CUT=1"], covers=["rejected", "truncated"]),
                 H("broken.c", name="field", covers=["rejected", "accepted"]),
                 H("broken.c", name="odd", defs=["ODD=1"], covers=["rejected", "accepted"]),
                 H("broken.c", name="odd-names", defs=["ODD=2"], covers=["rejected", "accepted"]),
                 H("broken.c", name="impossible-names", defs=["ODD=4"], covers=["rejected", "accepted"]),
                 H("broken.c", name="odd-config", defs=["ODD=3"], covers=["rejected", "accepted"]),
                 H("broken.c", name="any", defs=["ANY=32"], covers=["rejected"])]
CHECKS["C07"] = [H("notice.c", name="attributes", covers=["asked", "nothing to do"]), H("notice.c", name="sizes", defs=["SIZES=1"], covers=["asked", "nothing to do"]), H("absent.c", name="absent", covers=["second backup"])]
CHECKS["C09"] = [H("consent.c", covers=["refused", "confirmed", "refused after asking again", "confirmed after asking again"])]
CHECKS["C11"] = [H("gc.c", covers=["collected by the command", "collected after removal", "collected after change", "collected after a change of policy", "nothing to keep"]),
                 H("gc.c", name="root", defs=["ROOT=1"], covers=["collected by the command"]),
                 H("dedup.c", name="slots", defs=["FULL=1"], covers=["full", "free place found"])]
CHECKS["C10"] = [H("guard.c", name="own", covers=["first backup", "finished"]),
                 H("hist.c", name="histories", defs=["GUARD=1", "POL=\"track\""], covers=["restored into nothing"]),
                 H("notice.c", name="changes", defs=["GUARD=1"], covers=["asked"]),
                 H("crash.c", name="interrupted", defs=["GUARD=1"], covers=["finished"]),
                 H("fault.c", name="failing", defs=["GUARD=1", "TRACK=1", "SMALL=1"], covers=["failure reported"]),
                 H("gc.c", name="strays", defs=["GUARD=1"], covers=["collected by the command"])]
CHECKS["C12"] = [H("integ.c", covers=["healthy", "one path damaged", "several paths damaged", "directory damaged"]),
                 H("integ.c", name="alike", defs=["NEAR=1"], covers=["healthy", "one path damaged", "several paths damaged"]),
                 H("many.c", covers=["healthy", "damaged", "many damaged"])]
CHECKS["C25"] = [H("paths.c", name="one", covers=["one string"]), H("paths.c", name="two", defs=["TWO=1"], covers=["below", "not below"]),
                 H("paths.c", name="dots", defs=["DOTS=1"], covers=["has dots", "has no dots"])]
CHECKS["C26"] = [H("table.c", covers=["small", "grown", "grown twice", "already stored"])]
CHECKS["C29"] = [H("line.c", name="lines", covers=["no line", "one line", "several lines"]), H("line.c", name="numbers", defs=["NUMBER=1"], covers=["number", "too large"])]
CHECKS["C28"] = [H("mem.c", name="sizes", defs=["SYMSIZE=1"], covers=["allocated", "size of zero", "out of memory"]), H("mem.c", name="pools", defs=["POOL=1"], covers=["object", "given up"]),
                 H("mem.c", name="content", covers=["released", "released at exit"]), H("mem.c", name="memory", defs=["OOM=1", "NOPS=2"], covers=["out of memory", "released"])]
CHECKS["C06"] = [H("policy.c", covers=["left the backup", "in the history", "latest", "nothing but the configuration changed"])]
CHECKS["C08"] = [H("dedup.c", name="collisions", covers=["added", "removed", "changed"]), H("dedup.c", name="alike", defs=["NEAR=1"], covers=["added", "removed", "changed"]), H("dedup.c", name="slots", defs=["FULL=1"], covers=["full", "free place found"])]
CHECKS["C39"] = [H("format.c", name="written", covers=["two states", "unchanged", "one state"]), H("format.c", name="read", defs=["READ=1"], covers=["restored"]),
                 H("format.c", name="merged", defs=["MERGE=1"], covers=["branches", "older"])]
CHECKS["C31"] = [H("names.c", name="one", covers=["name"]), H("names.c", name="two", defs=["TWO=1"], covers=["same", "different"])]
CHECKS["C30"] = [H("hash.c", name="blocks", covers=["hashed", "size differs"]), H("hash.c", name="whole", defs=["WHOLE=1"], covers=["whole"])]
CHECKS["C32"] = [H("cli.c", covers=["asked", "accepted", "refused"])]
S_COV = ["++", "xx", "<>", "!!", "@@", "nothing", "counted below", "attributes named", "time follows from content"]
CHECKS["C22"] = [H("summary.c", name="track", covers=S_COV + ["--"]), H("summary.c", name="copy", defs=['POL="copy"'], covers=S_COV + ["--"]), H("summary.c", name="mirror", defs=['POL="mirror"'], covers=S_COV),
                 H("totals.c", covers=["new", "gone", "lost", "overflow"]),
                 H("repolicy.c", covers=["owner", "changed", "vanished", "history given up", "nothing given up", "same policy"]),
                 H("size.c", name="sizes", covers=["b", "KiB", "MiB", "GiB", "TiB", "huge"]),
                 H("scope.c", name="restores", covers=["types named", "++", "<>", "!!", "@@"])]
CHECKS["C17"] = [H("scope.c", covers=["impossible", "left alone", "restored", "types named", "++", "<>", "!!", "@@"]),
                 H("links.c", name="shared", covers=["outside", "all", "one"])]
CHECKS["C19"] = [H("types.c", covers=["file", "link to a file", "dangling link", "link to itself", "fifo", "link to a directory", "empty directory", "nested directory"])]
CHECKS["C18"] = [H("request.c", name="paths", covers=["did not exist then", "never saved", "restored", "number of no backup"]),
                 H("cwd.c", name="directory", covers=["long", "short"]),
                 H("request.c", name="numbers", defs=["NUMBERS=1"], covers=["not a number", "number too large", "did not exist then", "restored", "number of no backup"])]
CHECKS["C23"] = [H("race.c", covers=["no change", "changed before the answer", "refused", "stored", "before", "after"])]
CHECKS["C16"] = [H("search.c", name="rules", covers=["rejected", "nothing selected", "parent", "link followed", "ignored but asked for", "selected"]),
                 H("match.c", name="names", covers=["ambiguous", "left out", "named", "not named"]),
                 H("depth.c", name="memory", covers=["no rule", "ignored", "not there"]),
                 H("deep.c", name="deep", covers=["deep", "restored"])]
CHECKS["C15"] = [H("config.c", name="texts", covers=["null byte", "unknown policy", "no policy", "dots", "redefined", "redefined policy", "no path", "ignored", "summarized", "rules", "empty"]),
                 H("config.c", name="rules", defs=["RULES=4"], covers=["redefined", "redefined policy", "rules"]),
                 H("badconf.c", name="nothing-done", covers=["good", "bad expression", "bad line"])]
CHECKS["C33"] = [H("unmatched.c", covers=["second", "much", "little"])]
SUM_COV = ["summarized new", "summarized gone", "summarized content", "summarized attributes", "stored"]
CHECKS["C34"] = [H("summary.c", name=n, defs=['POL="%s"' % n, "SUM=1"], covers=SUM_COV) for n in ("track", "copy", "mirror")] + [
    H("summary.c", name="deep-" + n, defs=['POL="%s"' % n, "SUM=1", "DEEP=1"], covers=["summarized content", "summarized attributes", "stored"]) for n in ("track", "mirror")]
CHECKS["C36"] = [H("readonly.c", covers=["refused", "no lock", "restored", "damage found", "healthy"])]
CHECKS["C40"] = [H("fds.c", name="many", covers=["altered", "all done"], what="paths of all kinds, saved, changed, checked, collected and restored", bounds="12 (thorough: 20) paths of each kind with 8 file descriptors")]

# What each harness explores, and how far.
TREE5 = "first backup with 3 files (2 of them stored separately), second one with one of them changed, one removed, one new; files up to 40 bytes"
DOC = {
    "C01": {"crash": ("a backup ends at any mutating operation, by the process being killed or by power loss with any subset of the unsynced changes kept; also power loss after success",
                      TREE5 + "; one interruption; mirror policy"),
            "first": ("the same for the first backup of a repository", "3 files, one interruption"),
            "collection": ("a garbage collection is interrupted likewise", "2 backups, 3 stray items, one interruption"),
            "track": ("the same with the track policy, where older states stay", TREE5 + "; one interruption"),
            "gone": ("the same while a path with another policy vanishes", TREE5 + "; a tracked directory and a file in it; one interruption"),
            "twice": ("the backup after an interruption is interrupted, too", TREE5 + "; two interruptions")},
    "C02": {"mirror": ("any system call of a backup fails once or from then on, with the usual errors of that call", TREE5 + ", symlinks and directories"),
            "track": ("the same with the track policy and several blocks per file", TREE5), "first": ("the same for a first backup", "6 paths"),
            "memory": ("any memory allocation of a backup fails", TREE5)},
    "C03": {"rest": ("one path of any kind and attributes is saved, altered or replaced in any way, and restored alone, with its directory, or with everything",
                     "one path; sizes 0, 1, 20, 21, 40, 4096, 4097, 8192 with the first and last bytes symbolic; links of 1 to 299 bytes; full-width owner, mode, time"),
            "nested": ("the same below a directory which may be gone, too, with the copy policy", "as rest, one level deeper"),
            "unprivileged": ("the same for a user who is not root, with any permission bits which let that user read the files", "4 paths, permissions of one or (thorough) all symbolic")},
    "C04": {"hist": ("all histories of a tracked path (absent, small, big or empty file, link, directory with or without child) and all backup numbers", "3 backups; attributes of the last state symbolic"), "alike": ("hashes which differ in one byte only, at every position", "2 backups"),
            "orphan": ("a tracked path which vanishes along with directories above it which have no policy", "2 or 3 backups, 4 forms of rules"),
            "four": ("the same with one more backup", "4 backups")},
    "C05": {"copy": ("all histories of a path with the copy policy", "3 backups"), "mirror": ("all histories of a path with the mirror policy", "3 backups"),
            "orphan": ("a path which vanishes along with directories above it which have no policy", "2 or 3 backups, 4 forms of rules"),
            "nested": ("a path with a policy of its own below a directory with another, over all states", "3 (thorough: 4) backups, all pairs of policies")},
    "C06": {"policy": ("all histories during which the policy of a path, or the way it is configured, changes once", "3 (thorough: 4) backups of a path and its child")},
    "C07": {"attributes": ("all pairs of attributes, and changed contents, of a path of any kind", "one path; sizes 0, 1, 7, 20, 21, 31; links of 3, 12, 40 and 255 bytes"), "sizes": ("all pairs of sizes", "64 bit sizes"), "absent": ("configured paths which do not exist", "2 backups")},
    "C08": {"collisions": ("files of equal size with any contents, and any hash function", "3 (thorough: 4) files of 24 bytes in one or two blocks, some bytes symbolic"), "alike": ("hashes which differ in one byte only, at every position", "3 files"), "slots": ("any occupied slots", "up to 256 files of equal hash")},
    "C09": {"consent": ("any answers to the questions of backup and restore", "5 (thorough: 6) bytes, then end of input")},
    "C10": {"own": ("any kind of stray items in the repository and any paths configured", "one backup, collection and check"), "histories": ("as C04", "3 backups"), "changes": ("as C07", "2 backups"),
            "interrupted": ("as C01", "one interruption"), "failing": ("as C02", "one failure"), "strays": ("as C11", "2 backups")},
    "C11": {"gc": ("stray items of any kind, near the stored files in name and place", "2 backups, two stray items of 11 forms"), "root": ("the same with the repository given as /", "2 backups"), "slots": ("as C08", "histories of 4 points")},
    "C12": {"integ": ("stored files damaged in any way: any byte changed to any value, cut, extended, removed, another type", "16 paths, 1 (thorough: 2) stored files damaged"), "alike": ("hashes which differ in one byte only, at every position", "10 paths, 1 (thorough: 2) damaged"), "many": ("many damaged paths at once", "0, 1, 2, 10, 127 to 129, 255 to 257 and 512 paths")},
    "C13": {"many": ("histories of hundreds of backups", "254 to 257 and 300 backups, any content"), "index": ("an index with any values in all fields", "2 paths, 2 backups, one history of 2")},
    "C14": {"truncated": ("an index cut at any place", "index of some 200 bytes"), "field": ("each field of an index with any value", "the same index, one field"),
            "odd": ("an index which decodes but means nonsense: any policies, histories, types", "3 paths, histories of up to 2 (thorough: 3) points"),
            "impossible-names": ("an index with a name no file can have: slashes, null bytes, dots", "one name of up to 4 (thorough: 5) bytes, 7 commands"), "odd-names": ("the same with any names", "names of up to 3 bytes"), "odd-config": ("the same for the saved configuration", "1 file"), "any": ("any bytes at all", "32 bytes")},
    "C15": {"texts": ("any bytes in configuration texts at several places", "5 (thorough: 7) symbolic bytes within texts"), "rules": ("any sequence of rule lines", "4 lines out of a list"), "nothing-done": ("backups with a configuration which is wrong somewhere", "one error")},
    "C16": {"rules": ("any pair of rules of a list, over trees of any kinds", "3 levels, up to 3 rules with policies"), "names": ("two entries with any names against literal and regular rules", "names of 3 (thorough: 4) bytes"),
            "memory": ("stack depth of a search over many entries", "40 (thorough: 120) entries"), "deep": ("trees of any depth, with a second rule at any depth", "18 (thorough: 24) levels")},
    "C17": {"scope": ("restores of any path over a tree altered in any way: what changed, what was announced and how", "7 paths, one (thorough: up to 3) of them altered"),
            "shared": ("files with several names", "2 saved files, 3 ways of sharing")},
    "C18": {"paths": ("restores of any paths", "path texts with 3 (thorough: 4) symbolic bytes, 3 backups"), "directory": ("relative paths in working directories with paths of any length", "up to 450 (thorough: 700) bytes"), "numbers": ("restores with any backup number", "number texts with 4 (thorough: 5) symbolic bytes")},
    "C19": {"types": ("a saved path of any kind replaced by anything of another type", "one path; links to files, directories, nowhere, themselves; fifos, sockets, devices; full directories")},
    "C20": {"restore": ("any system call of a restore fails once or from then on", "5 paths, over nothing or an altered tree"), "blocks": ("the same with several blocks per file and small buffers", "as restore, blocks of 16 and buffers of 24 bytes"), "integrity": ("any system call of an integrity check fails", "5 paths, one damaged or none"),
            "memory": ("any allocation of a restore fails", "5 paths"), "memory-integrity": ("any allocation of an integrity check fails", "5 paths"), "no-output": ("nothing can be printed", "5 paths")},
    "C21": {"pairs": ("any two commands, interleaved", "2 processes, 3 preemptions"), "three-deep": ("three commands", "3 processes, 4 preemptions"), "pairs-deep": ("two commands", "2 processes, 6 preemptions")},
    "C22": {"repolicy": ("all pairs of policies of a path, and what was saved of it: announced changes of policy and given up states", "a file, or a directory with a file; one to three saved states, gone and back; at last unchanged, changed, gone or with any owner"), "sizes": ("the printed form of a size", "every 64-bit size"), "track": ("all pairs of states of a tree: what is printed, its markers, attributes and totals", "a directory, a file, a nested directory with a child; two (thorough: all) of them change"),
            "copy": ("the same for the copy policy", "as track"), "mirror": ("the same for the mirror policy", "as track"), "totals": ("totals over files of any size", "2 (thorough: 3) old and 2 new files with 64 bit sizes"),
            "restores": ("what a restore announces", "as C17")},
    "C23": {"race": ("another process changes the file at any system call of the backup", "one file of up to 40 bytes, one change, symbolic content")},
    "C24": {"add": ("all pairs of operands", "full width, no bound on values"), "mul": ("all pairs of operands", "full width, no bound on values"),
            "totals": ("the totals a backup prints, for any sizes", "2 saved (thorough: 3) and 3 new files, full width"),
            "sums-gc": ("the size of what a collection removes, for any sizes", "3 files, one of the largest size, 63 bits for the others"), "sums-integrity": ("the total of sizes to check, for any sizes", "3 files, sizes of 16 hex digits")},
    "C25": {"one": ("all strings", "up to 5 (thorough: 7) bytes"), "two": ("all pairs of strings", "up to 5 (thorough: 7) bytes each"), "dots": ("all strings", "up to 5 (thorough: 7) bytes")},
    "C26": {"table": ("tables with any hash function: keys with any content", "up to 70 concrete and 2 symbolic keys of up to 4 bytes")},
    "C28": {"sizes": ("allocations of any size", "64 bit sizes"), "pools": ("sequences of requests to an object pool", "3 (thorough: 4) requests"), "content": ("sequences of allocations, growth and copies", "3 (thorough: 4) steps, sizes up to 11 around the capacity"),
            "memory": ("the same with any allocation failing", "2 (thorough: 4) steps")},
    "C29": {"lines": ("any input bytes", "6 (thorough: 8) bytes, also after up to 4092 others, lines read until the end"), "numbers": ("number texts", "up to 22 digits, the last ones symbolic")},
    "C30": {"blocks": ("contents and sizes around block limits", "sizes up to 34 (thorough: 80) bytes with blocks of 8 to 16"), "whole": ("the backup stores what was hashed", "as blocks")},
    "C31": {"one": ("any hash, size and slot", "full width"), "two": ("any two of them", "full width; quick: sizes with 1, 2, 9, 15 or 16 digits")},
    "C32": {"cli": ("any arguments, and repository paths in all states", "up to 3 arguments with 3 (thorough: 4) symbolic bytes")},
    "C33": {"unmatched": ("rules against trees with or without what they name", "two symbolic components out of a list, any kinds of paths")},
    "C34": {n: ("any set of summarized directories over the states of C22: what is printed, and that the stored index is the same", "as C22") for n in ("track", "copy", "mirror", "deep-track", "deep-mirror")},
    "C36": {"readonly": ("commands on a repository which is read-only, compared with the same ones where it is not", "2 backups, one path damaged or none")},
    "C39": {"written": ("the bytes of the index and the names of stored files", "2 backups of 3 paths with symbolic attributes"), "read": ("an index made by hand", "the same"), "merged": ("a repository synchronized with a newer copy", "2 backups on each side")},
}
for _id, _hs in CHECKS.items():
    for _h in _hs:
        _d = DOC.get(_id, {}).get(_h.name)
        if _d:
            _h.what, _h.bounds = _h.what or _d[0], _h.bounds or _d[1]
        assert _h.what and _h.bounds, (_id, _h.name)
