#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl: run it to rewrite the file."""
import json
P=[]
def p(id,title,statement,over,q,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":m.strip(),"where":", ".join(files[:4])} for i,m in enumerate(mech.split(", "))]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

LAB="libparted/labels/"
p("C01","A partition table is well formed after every operation",
  "After any sequence of create, add, remove, resize, move, maximise, shrink-extended, delete-all, duplicate, commit and re-read operations on any label type, no two partitions overlap, every partition lies inside the device, and logical partitions lie inside the one extended partition while primaries lie outside it. The areas the label reserves for its own metadata are never part of a partition. Enumerating the table visits every sector of the device that may be used exactly once: partitions, metadata and free space are in ascending order, disjoint, and there is no gap between them.",
  ["histories","inputs","configurations"],
  "all operation sequences, all label types that can hold partitions, all start/end requests, constraints and device sizes",
  "The tests run a few fixed scripts on a few labels; they never enumerate histories, nor check tiling and disjointness after each step, in particular before the first commit and after failed operations.",
  ["libparted/disk.c",LAB+"dos.c",LAB+"gpt.c",LAB+"sun.c",LAB+"mac.c",LAB+"dvh.c",LAB+"bsd.c",LAB+"rdb.c",LAB+"pc98.c",LAB+"atari.c"],
  "sorted insertion (raw add/remove), overlap constraint, label alignment hooks, geometry checks and the update mode that rebuilds metadata and free-space placeholders",
  [("part_list","ordered list of partitions, metadata and free-space placeholders"),("update_mode","placeholders are removed while > 0")])
p("C02","Failed table operations change nothing, successful ones only their target",
  "When adding, resizing, moving, maximising or removing a partition is refused, the in-memory table (geometries, numbers, types, free space and metadata regions) and the device are exactly as before the call. When it succeeds, only the named partition changes: every other partition keeps its geometry, type, name, flags and (save for the logical renumbering on removal) its number. No table operation other than commit writes to the device.",
  ["histories","inputs"],
  "all operation sequences with valid and invalid requests on all partition-holding label types",
  "Tests check the message printed for a handful of refused requests; they do not compare the whole table and the whole device before and after each refused operation.",
  ["libparted/disk.c",LAB+"dos.c",LAB+"gpt.c"],
  "rollback paths of add/set-geometry/remove, update-mode push/pop around them")
p("C03","Partition numbers are unique, stable and in range",
  "A new partition takes the lowest free number of its class (primary or logical) for its label type, numbers are unique and never exceed the label's limit, and a partition keeps its number until it is removed; the only renumbering is that logical partitions behind a removed logical one move down so that they stay consecutive from 5. Adding beyond the label's maximum number of partitions is refused. On-disk slots follow the numbers, so that after a commit and re-read each partition comes back with the same number on label types that record numbers.",
  ["histories","configurations"],
  "all add/remove/commit/re-read histories on all partition-holding label types",
  "Tests create at most a few partitions in order and rarely remove from the middle; numbering after holes, at the maximum count, and across re-reads depends on history.",
  ["libparted/disk.c",LAB+"dos.c",LAB+"gpt.c",LAB+"sun.c",LAB+"bsd.c",LAB+"pc98.c",LAB+"mac.c",LAB+"dvh.c"],
  "label enumerate hooks, enumeration after removal, maximum primary count check")
p("C04","Alignment and constraint algebra is exact",
  "A sector satisfies an alignment exactly when it is congruent to the offset modulo the grain size; the intersection of two alignments, geometries or constraints is satisfied by exactly the sectors or regions that satisfy both. Aligning up, down or to the nearest returns the least, greatest or a nearest aligned sector inside the range, or failure exactly when there is none. Solving a constraint never returns a region that breaks it, and solving for the largest or nearest region returns the documented optimum.",
  ["inputs"],
  "all alignments (any offset and grain, including grain 0), geometries, constraints and sectors, including negative and extreme offsets",
  "The unit tests try a dozen alignments; exactness is a statement about all combinations, and off-by-one errors show only for particular residues and range edges.",
  ["libparted/cs/natmath.c","libparted/cs/constraint.c","libparted/cs/geom.c"],
  "extended Euclid intersection of congruences, alignment within a geometry, canonical start/end ranges")
p("C05","Placement honours the caller's constraint and the label's rules",
  "A partition that is added, resized or maximised under a constraint ends up at a place that satisfies the constraint, the label type's own placement rules (alignment, reserved areas, room for a logical partition's own record) and the existing partitions. An exact constraint places the partition exactly there or is refused, and is refused only if that place breaks a rule. The maximum geometry reported for a partition is the largest extension that is then accepted, and maximising gives it.",
  ["inputs","histories","configurations"],
  "all tables reachable by histories, all exact, range and aligned constraints, all label types that hold partitions",
  "Tests probe a few positions with default alignment; whether every position is treated right (edges of free areas, EBR gaps, cylinder labels, fresh uncommitted labels) needs all positions in all tables.",
  ["libparted/disk.c",LAB+"dos.c",LAB+"gpt.c","libparted/cs/constraint.c"],
  "constraint intersection with label and overlap constraints, nearest/maximal solution, per-label align hooks")
p("C06","A committed table reads back identical, and committing is idempotent",
  "After a successful commit, reading the label back from the device yields the same label type and the same partitions: geometry, number, type, name, type id or GUID, unique GUID, flags and disk flags, as far as the label type can represent them (the loop label records nothing). Committing the table that was read back leaves every byte of the device unchanged. An attribute the label type cannot represent is refused or reported when it is set, not lost at commit.",
  ["histories","inputs","configurations"],
  "all tables reachable by histories of edits on all label types, sector sizes 512 to 4096",
  "Tests compare printed tables for a few hand-made layouts; a field that is dropped, truncated or mis-encoded only for particular values, slots or orders goes unseen.",
  [LAB+"gpt.c",LAB+"dos.c",LAB+"mac.c",LAB+"sun.c",LAB+"bsd.c",LAB+"dvh.c",LAB+"rdb.c",LAB+"pc98.c",LAB+"loop.c","libparted/disk.c"],
  "label read and write hooks, commit")
p("C07","Only label metadata is ever written, and reading writes nothing",
  "Probing a device, reading a label, identifying file systems, computing alignments and editing the table in memory write nothing to the device. Committing writes only sectors that belong to the label's own metadata (the label's headers and tables, the logical partitions' link records, and, when a new label replaces an old one, the areas at both ends of the device where signatures live), never a sector inside a partition of the table. Boot code kept by the label type in the label sector survives edits and commits.",
  ["histories","inputs","configurations"],
  "all histories of edits, commits and re-reads over devices with arbitrary previous contents",
  "Tests look at the table, not at the rest of the disk; a stray write to user data, or boot code lost by a particular edit, would pass them all.",
  ["libparted/disk.c",LAB+"dos.c",LAB+"gpt.c",LAB+"pt-tools.c",LAB+"sun.c",LAB+"bsd.c"],
  "clobbering of the device ends at first commit, label write hooks, sector-level read-modify-write")
p("C08","A GPT survives a crash at any write and the loss of either copy",
  "If a commit of a GPT whose copies were both intact is cut off after any number of its sector writes, reading the disk again yields either the complete old or the complete new table (the protective MBR and its flag aside). If either copy of the header or of the entry array has damaged contents, the table is recovered from the other copy, and once the offered repair is accepted and committed both copies are valid again at their right places. A table is never taken from a header or entry array whose checksum, signature, own position or revision is wrong.",
  ["crash_points","fault_sequences","inputs"],
  "all commits from one table to another, all write prefixes, all single-copy corruptions (each header field and entry array), device growth and misplaced backups",
  "The tests corrupt two or three bytes by hand; they do not enumerate write prefixes of a commit, header fields, or combinations with moved or grown devices.",
  [LAB+"gpt.c",LAB+"efi_crc32.c"],
  "write order of primary and backup copies, header validity test, fallback to the other copy, repair prompts",
  [("AlternateLBA","where the other header is"),("first/last usable","data area recorded in the header")])
p("C09","Flags, types and names obey their label's rules",
  "Setting a flag that the label type offers makes it read as on, clearing it makes it read as off (unless its on state is what the partition's file system is recorded as by default), and flags that share one representation (a single partition type, or one per-disk slot) exclude each other and only each other. Setting a flag, type id, type GUID, file-system type or name on one partition changes nothing on any other partition, except for flags that at most one partition may carry. Flags that are not available are refused, and names are kept or cut at the label's limit, never corrupted.",
  ["histories","inputs"],
  "all sequences of flag, type, file-system and name changes on all label types that support them, over several partitions",
  "Tests set one flag at a time on one partition; interference between flags, between flags and types, and between partitions depends on the sequence.",
  [LAB+"gpt.c",LAB+"dos.c",LAB+"mac.c",LAB+"sun.c",LAB+"dvh.c",LAB+"rdb.c",LAB+"pc98.c",LAB+"bsd.c","libparted/disk.c"],
  "per-label set/get flag and set-system hooks, type tables")
p("C10","A duplicated table is equal and independent",
  "A duplicate of a table equals the original in label type, disk flags and every partition's geometry, number, type, name, flags and identifiers, and committing it would write the same metadata as committing the original. Later changes to either one never show in the other, and either can be destroyed first. Duplicating does not touch the device.",
  ["histories","configurations"],
  "all tables reachable by edit histories on all label types, all later edits of either table",
  "One unit test duplicates a small table; hidden label state (per-disk header fields, gaps in numbers, boot code) is not compared.",
  ["libparted/disk.c",LAB+"gpt.c",LAB+"dos.c",LAB+"rdb.c",LAB+"dvh.c",LAB+"mac.c"],
  "label duplicate and partition duplicate hooks")
p("C11","Exceptions reach the handler exactly once and nesting is balanced",
  "Outside any fetch-all section each thrown exception is passed exactly once to the current handler with its type, options and message, and the option the handler returns (possibly unhandled) is what the thrower gets. Inside a fetch-all section, at any nesting depth, the handler is not called, the exception stays pending until it is caught, rethrown or replaced, and leaving the outermost section restores normal delivery. With no handler installed, an exception that offers exactly one option of OK, cancel or ignore is answered with it and any other is unhandled.",
  ["histories","inputs"],
  "all sequences of throw, rethrow, catch, fetch-all, leave-all and set-handler calls with all option sets",
  "No test exercises nested fetch-all sections, rethrow or the default handler's choice; wrong nesting only shows after particular call sequences.",
  ["libparted/exception.c"],
  "the pending-exception flag, the fetch counter and the current handler",
  [("ex_fetch_count","nesting depth of fetch-all"),("ped_exception","an exception is pending")])
p("C12","Device access is gated, counted and reports its errors",
  "A device is opened on the first open and closed on the last matching close, ending an external-access section restores the open state, and opening the same path again gives the same device object until it is destroyed or removed from the cache. Reads and writes through the library transfer exactly the requested sectors at the requested place even when the operating system transfers less than asked or interrupts the transfer with errors that are retried. An I/O error that the handler does not answer with retry or ignore makes a read, write or sync fail (probing takes what cannot be read as absent), a commit whose write failed never reports success, and a device that could only be opened read-only is never written.",
  ["histories","fault_sequences"],
  "all open/close/external-access histories, all patterns of short transfers and errors on read, write, seek and sync, all handler answers",
  "The tests never inject an I/O error or a short transfer and use one open/close pair.",
  ["libparted/device.c","libparted/arch/linux.c","libparted/disk.c"],
  "open and external-mode counters, device cache, read/write/sync retry loops, commit return values",
  [("open_count","nesting of opens"),("external_mode","external access section is active"),("boot_dirty/dirty","written since last flush")])
p("C13","Positions and sizes mean what the unit says",
  "A size or position given as a number with a unit denotes that many units, counted from the end of the device if negative; the sector chosen is the one that contains it, kept within the device, and the accepted range around it is half a unit on each side (short of a sector), except that sectors and binary units are taken exactly. Printing a byte position in a unit rounds to the printed precision, and reading the printed text back accepts the original position within that rounding; in sectors, bytes, CHS and cylinders the round trip follows the device geometry exactly. Texts without a number, out-of-device positions and fractions below one unit are refused.",
  ["inputs","configurations"],
  "all numbers, signs, fractions, unit suffixes, default units, sector sizes and device geometries",
  "Tests use a handful of values and units; rounding edges, negative positions and geometries need all of them.",
  ["libparted/unit.c","parted/parted.c"],
  "unit sizes, text parsing with range computation, formatting with fixed precision")
p("C14","After a commit the kernel's partitions match the table",
  "After a successful commit to a block device, the kernel's view has exactly the table's partitions (up to the number the kernel supports) with their start and length, an extended partition being one or two sectors long. Partitions that did not change are never removed or re-added, a partition whose start is unchanged is resized in place, and stale partitions are removed. If a partition in use prevents this the commit reports an error naming exactly the partitions concerned, unless the user chose to ignore it, and no partition in use is altered.",
  ["histories","fault_sequences","configurations"],
  "all pairs of old kernel state and new table, all sets of busy partitions, all kernel partition limits and label types",
  "The tests cannot run this code at all without loop or SCSI debug devices; with them they cover a few fixed changes.",
  ["libparted/arch/linux.c"],
  "two-pass synchronisation with delete, resize and add requests to the kernel")
p("C15","A label never records what its format cannot represent",
  "A partition whose start or length exceeds what the label type's on-disk fields can hold is refused with an error, however large the device is, and everything up to the limit that is reported is accepted. What is accepted is recorded without wrap-around. The limits reported for a label type are exactly the limits that are enforced, save that a label type that counts in cylinders may be bounded by their number first.",
  ["inputs","configurations"],
  "all starts and lengths around the limits on devices up to 2^62 sectors, all label types",
  "Tests need huge sparse files and probe one or two values of one label type.",
  ["libparted/disk.c",LAB+"pt-tools.c",LAB+"pt-limit.gperf",LAB+"dos.c",LAB+"gpt.c"],
  "per-label limits table checked on every placement")
p("C16","A device carries exactly the label that was last committed",
  "After a new label of any type is created and committed over any previous contents, the device is recognised as that type and as no other partition table, and it holds no partitions (but those of the label itself: the loop label's one, the map of mac, the volume header of dvh). Creating a label in memory changes nothing on the device before the commit; clobbering a device leaves no recognisable partition table. Recognition does not depend on what other label types were on the device before.",
  ["histories","configurations"],
  "all sequences of label types committed over each other, all device sizes and sector sizes that the label types support",
  "Tests relabel a few pairs of types; with a dozen types there are many ordered sequences and sizes, and a stale signature matters only for some.",
  ["libparted/disk.c",LAB+"gpt.c",LAB+"dos.c",LAB+"mac.c",LAB+"sun.c",LAB+"bsd.c",LAB+"rdb.c",LAB+"dvh.c",LAB+"pc98.c",LAB+"atari.c",LAB+"loop.c",LAB+"aix.c"],
  "probe order and the probe function of each type, clobber, fresh label creation")
p("C17","Script mode does exactly what was asked or fails and leaves the disk alone",
  "In script mode a command that succeeds exits with status zero and leaves on disk exactly the table that the command describes, where words that are left out stand for what is there (or, for a flag, its opposite); a command that is unknown, refused or malformed ends the run with non-zero status and a message, and leaves the disk as the commands before it left it. The program never waits for input in script mode. What print shows, in human, machine or JSON form, is the table on disk: the same numbers, positions, sizes, names and flags in all three.",
  ["histories","inputs"],
  "all sequences of commands (labels, partitions, flags, names, resizing, toggles, units) in one or several invocations, valid and invalid arguments",
  "The test scripts fix a few command lines each; consistency of exit status, disk contents and the three output forms over arbitrary sessions is not checked.",
  ["parted/parted.c","parted/ui.c","parted/command.c","parted/jsonwrt.c"],
  "command dispatch and failure handling in non-interactive mode, exception handling by option, print in three modes")
p("C18","File systems are recognised by their own signature only, without writing",
  "A region that holds a file system of a supported type is reported as that type, and a region that holds none is reported as none, whatever surrounds it; where the signatures of several are there, the one whose size matches the region clearly best, or none. Damaging the signature that identifies the type makes the recognition go away; the answer depends only on bytes inside the region (the Amiga types also read the disk's own label). Probing never writes, never crashes and never loops on arbitrary contents or tiny regions.",
  ["inputs","configurations"],
  "all supported file-system types, region positions and sizes, sector sizes, signature variants and arbitrary surrounding bytes",
  "Tests probe what mkfs programs make in one position and size each.",
  ["libparted/filesys.c","libparted/fs/ext2/interface.c","libparted/fs/fat/fat.c","libparted/fs/linux_swap/linux_swap.c","libparted/fs/ntfs/ntfs.c","libparted/fs/xfs/xfs.c","libparted/fs/btrfs/btrfs.c","libparted/fs/udf/udf.c","libparted/fs/hfs/probe.c"],
  "probe of every registered type inside the geometry, choice of the best match")
p("C19","Resizing a FAT file system preserves every file",
  "After a FAT16 or FAT32 file system is grown, shrunk or moved within its device, every file and directory is still there with the same contents, the allocation tables are consistent and agree with each other, and nothing outside the old and new region is written. A resize that is refused leaves the file system as it was. A resize to the minimum size reported, where that is less than the present size, is accepted unless the user chooses against it; and no size is accepted that is too small for the data. (Regions whose sectors are of 512 bytes.)",
  ["inputs","histories"],
  "all FAT file systems (type, cluster size, fragmentation, directory trees), all old and new regions",
  "One unit test resizes one freshly made file system without files.",
  ["libparted/fs/r/fat/resize.c","libparted/fs/r/fat/clstdup.c","libparted/fs/r/fat/count.c","libparted/fs/r/fat/calc.c","libparted/fs/r/fat/context.c"],
  "cluster relocation and duplication, rebuilding of allocation tables and directories in the new geometry")
p("C20","Progress timers deliver every update and nest proportionally",
  "A timer's fraction is what was last reported and is delivered to its handler unchanged; a nested timer that covers a fraction of its parent moves the parent from its value at nesting time by exactly that fraction of the child's progress. Handlers are called for every update that is due and never after the timer is destroyed. A null timer is accepted everywhere.",
  ["histories","inputs"],
  "all trees of nested timers and sequences of update, reset, set-state and touch calls",
  "No test exercises timers.",
  ["libparted/timer.c"],
  "nested timer context with start fraction and nest fraction")
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
