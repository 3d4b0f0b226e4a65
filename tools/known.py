"""Writes KNOWN_FINDINGS.txt: the findings listed here, and one line per repair committed in /repo."""
import subprocess, os
M = {"end of the region a file system is resized":"C19","new file system when the FAT32 root":"C19","collect what the clusters of a resized":"C19","count no room for data where the tables":"C19","keep the old directories until they are read":"C19","count the clusters of a resized FAT":"C19","last two clusters of a FAT":"C19","names an unknown command":"C17","number that is followed by something":"C17","type-id that is not a number":"C17","resizepart ":"C17","say what is missing when":"C17","default of a question as it is":"C17","name could not be set":"C17","past an amiga block":"C18","superblock copies in circles":"C18","f2fs superblock at its place":"C18","reiserfs superblock at its place":"C18","recognise FAT file systems on":"C18","alternate HFS":"C18","divide by zero looking for swap":"C18","sizes of file systems in 64":"C18","block of an amiga label to compute":"C18","reserved blocks of amiga partitions":"C18","removing its spaces":"C13","for CHS locations":"C13","does not fit an int":"C13","positions from the end":"C13","that wraps to 0":"C15","keep PC98 partitions within":"C15","BSD partition in 64":"C15","believe the ioctls":"C14","itself counts in ext_range":"C14","beyond the 31st":"C14","before adding others":"C14","that the new table cannot have":"C14","even when it starts at 0":"C14","extended partition of one sector longer":"C14","as many partitions as its array":"C15","aix label that cannot be written":"C16","amiga rdb on a device with large":"C16","protective MBR that is taken":"C16","negative number to the nearest":"C04","grains are large":"C04","for an absolute one":"C04","4ab7e91":"C05","baa6384":"C02","49b17da":"C04","54a6a59":"C04","610b402":"C04","f935a45":"C01","b9c929d":"C02","00619b1":"C07","266612b":"C07","3193a93":"C10","88be74c":"C10",
"bf67f15":"C03","5f5ae33":"C10","adbc2ce":"C09","8abe9aa":"C09","db22ec5":"C06","ce3df57":"C03","e104428":"C06","87213da":"C07","7306217":"C05","shrinking an msdos":"C01","would not be accepted again":"C05",
"593754d":"C09","hidden flag on an extended":"C06","e298bf4":"C06","past the next one":"C05","type id that contradicts":"C06","cut a gpt partition name":"C09","lba flag of hidden":"C09","amiga partition name":"C09","too small instead of overrunning":"C02","last of the 128":"C03","place of the backup table":"C10","lost its signature":"C08","impossible number of entries":"C08","single usable sector":"C06","checksum of a gpt header":"C08","out of the reserved area":"C06","after a failed read":"C12","after a commit that failed":"C12","bad sector list could not":"C12","amiga rdb that cannot be read":"C12","checking a device at its end":"C12","find bad sectors at the end":"C12","close a device whose fsync failed":"C12"}
F = ["property=C16 pc98: a label made on a device whose sectors are not of 512 bytes reads back as an empty msdos one",
"property=C04 the solver gives up where another start than the nearest has an end aligned to a grain greater than one",
"property=C03 atari: adding a logical partition that is refused renumbers the primary partitions",
"property=C06 bsd: the boot flag of a partition is not recorded",
"property=C06 dvh: the boot flag of an unnamed boot file is not recorded",
"property=C06 mac: the root flag of a partition whose lvm flag is on is not recorded",
"property=C06 msdos: a table with a partition of type id 0xee is not recognised",
"property=C12 pc98: a label whose second sector cannot be read is taken for an msdos one"]
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_more.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_more.py")) else None
out = ["# Known findings and repaired defects.  'finding:' entries are reported as KNOWN-FINDING and do not fail the check;", "# 'fixed:' entries suppress nothing."]
out += ["finding: " + f for f in F]
for l in reversed(subprocess.run(["git","-C","/repo","log","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()):
    h, m = l.split(" ", 1)
    if not m.startswith("fix:"): continue
    p = [v for k, v in M.items() if k == h or k in m]
    if not p: print("no property for", l)
    out.append("fixed: property=%s %s %s" % (p[0] if p else "??", h, m[5:]))
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN_FINDINGS.txt"), "w").write("\n".join(out) + "\n")
