"""Writes MANIFEST.json and KNOWN_FINDINGS.txt's fixed entries from one place."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = "TLA+ trace validation of recorded library runs"
T = {
 "C19": "TLA+ specification of FAT16 and FAT32 as they lie on a device; exhaustive TLC model of what a resize copies and writes in which order; file systems laid out at random, resized and moved by libparted, every image before and after judged by TLC",
 "C17": "TLA+ specification of what each command of parted -s does to the table, may do and prints, with its units and places; exhaustive TLC runs of the certain commands, behaviours of it replayed as scripts, and random runs with wrong and missing words recorded from the real program (table before, status, message, three print forms, bytes, table after) checked against it",
 "C18": "TLA+ specification of what identifies each of the 39 file systems libparted knows, byte by byte; exhaustive TLC damage to every identifying byte; file systems laid out, damaged, moved, cut short and overwritten in memory, and what libparted finds judged by TLC",
 "C13": "exhaustive TLC model of printing and reading every position of small devices in every unit; random texts, positions, devices and units put through libparted and judged by TLC",
 "C15": "TLC model of label fields and their limits; random tables around every limit on devices of any size run through libparted, every acceptance, refusal and re-read judged by TLC",
 "C14": "exhaustive TLC model of the requests a commit makes to the kernel; its behaviours and random tables, views and uses run through the Linux layer over a simulated kernel, every request and the final view judged by TLC",
 "C16": "exhaustive TLC model of the marks labels leave and what clobbering erases; its behaviours, every pair of labels and random sequences over leftovers run through libparted and judged by TLC",
 "C04": "TLC checks of the TLA+ constraint operators against brute force; TLC validation of recorded alignment, region and constraint calls over exhausted small domains, at scale, and for every region of a device",
 "C01": "exhaustive TLC model of the table operations; behaviours of it replayed into libparted; TLC validation of recorded histories",
 "C02": "TLC validation of recorded histories and of replayed behaviours against the TLA+ table specification",
 "C03": "TLC validation of recorded histories and of replayed behaviours against the TLA+ table specification",
 "C06": "TLC validation of commit-read-commit round trips against the TLA+ table and attribute specifications",
 "C07": "TLC validation of every recorded write against the write footprint in the TLA+ table specification",
 "C09": "TLC validation of attribute histories against the TLA+ specification of flags, names and types",
 "C10": "TLC validation of interleaved histories on a table and its duplicates against the TLA+ table specification",
 "C08": "exhaustive TLC model of GPT commits, crashes and damage; TLC validation of what libparted reads from every prefix of a commit's writes and from damaged copies",
 "C11": "exhaustive TLC model of exceptions, sections and handlers; its behaviours replayed into libparted and judged by TLC; fault histories judged by TLC",
 "C12": "exhaustive TLC model of device objects and transfers; its behaviours replayed on files through the Linux layer with system calls failing or cut short, and fault histories on every label, judged by TLC",
 "C20": "exhaustive TLC model of nested timers; its behaviours replayed into libparted and judged by TLC",
 "C05": "TLC validation of every placement against the solution set the TLA+ constraint specification computes",
}
NOTE = {
 "default": "Every step of the recorded runs is judged by TLC against the specification; coverage is the operations and inputs explored, not all of them.  Trusts TLC, the drivers in harness/ and the translation in lib/.",
}
try:
    exec(open(os.path.join(V, "tools", "claims.py")).read())
except FileNotFoundError: pass
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = globals().get("NA", {})
m = {"version": 1, "setup_cmd": "python3 lib/build.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in T:
        m["checks"].append({"property": i, "quick_cmd": "python3 checks/run.py %s quick" % i, "thorough_cmd": "python3 checks/run.py %s thorough" % i,
                            "technique": T[i], "level": "model_checking", "level_note": NOTE.get(i, NOTE["default"])})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "The check for this property is not built yet.")})
m["notes"] = "No hooks: the drivers link the library's sources directly and replace its architecture layer."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
