#!/usr/bin/env python3
"""checks/run.py PROPERTY [quick|thorough]"""
import os, sys, random, json, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core, hist, tlc, gpt, misc, faults, devs, cs, relabel, kern, units, limits, probe, cli, fatfs
from core import run_table, model_check, behaviours, mc_cfg

W = {"add": 10, "setgeom": 6, "setgeombad": .3, "max": 2, "maxgeom": 2, "minext": 1, "rm": 3, "delall": .3, "bysec": 2,
     "check": .3, "dflag": 1, "commit": .5, "commitread": 1.5, "dup": 1}
def weights(**kw):
    w = dict(W); w.update(kw); return w
LABS = ["gpt", "msdos", "msdos", "msdos", "sun", "mac", "dvh", "bsd", "amiga", "pc98", "loop", "atari"]

def histories(ctx, n, w, nops=16, labs=LABS, bigshare=.4, fs=("-",)):
    return [hist.table_history(ctx.r, labs[i % len(labs)], {"w": dict(w), "fs": list(fs)}, nops, ctx.r.random() < bigshare) for i in range(n)]

# small models: label, length, sector size, heads, sectors, cylinder alignment, points, partitions
SMALL = [("msdos", 9, 512, 2, 2, 0, [0, 1, 3, 5, 8], 2), ("msdos", 18, 512, 2, 3, 1, [0, 3, 6, 17], 2),
         ("gpt", 12, 8192, 1, 1, 0, [3, 4, 5, 6, 8], 3), ("bsd", 7, 512, 1, 1, 0, [0, 1, 3, 5, 6], 3),
         ("pc98", 12, 512, 2, 2, 0, [0, 3, 4, 7, 11], 2), ("sun", 14, 512, 2, 2, 0, [0, 3, 4, 11, 13], 2),
         ("mac", 260, 512, 1, 1, 0, [63, 64, 66, 259], 2), ("dvh", 10, 512, 1, 1, 0, [0, 1, 2, 8, 9], 2),
         ("amiga", 295, 512, 2, 2, 0, [274, 276, 279, 283, 294], 2)]
BIG = [("msdos", 9, 512, 2, 2, 0, [0, 1, 2, 3, 5, 8], 3), ("msdos", 18, 512, 2, 3, 1, [0, 3, 5, 6, 11, 17], 3),
       ("gpt", 12, 8192, 1, 1, 0, [3, 4, 5, 6, 7, 8], 3), ("bsd", 7, 512, 1, 1, 0, [0, 1, 2, 3, 5, 6], 3),
       ("pc98", 12, 512, 2, 2, 0, [0, 3, 4, 7, 8, 11], 3), ("sun", 14, 512, 2, 2, 0, [0, 3, 4, 7, 11, 13], 3),
       ("mac", 260, 512, 1, 1, 0, [63, 64, 66, 71, 80, 259], 3), ("dvh", 10, 512, 1, 1, 0, [0, 1, 2, 3, 8, 9], 3),
       ("amiga", 295, 512, 2, 2, 0, [274, 276, 279, 283, 291, 294], 3)]

def small_models(ctx):
    model_check(ctx, "MCPartTable", [("%s/%d" % (a[0], a[5]), mc_cfg(*a)) for a in (SMALL if ctx.quick else BIG)], "exhaustive model", timeout=800)

def spec_behaviours(ctx, num, depth=22):
    r, cf = ctx.r, []
    for lab in ("gpt", "msdos", "msdos", "msdos", "sun", "mac", "dvh", "bsd", "amiga", "pc98"):
        d = hist.rnd_dev(r, lab, big=r.random() < .3)
        pts = sorted({0, 1, d.len // 3, d.len // 2, d.len - 1, d.cyl if d.cyl < d.len else 2})
        cf.append(mc_cfg(lab, d.len, d.ss, d.h, d.sc, r.choice([0, 1]) if lab == "msdos" else 0, pts, 60, depth, 1, props="INVARIANTS WF"))
    return behaviours(ctx, cf, num)

FILL = ["gpt", "msdos", "sun", "mac", "dvh", "bsd", "amiga", "pc98", "atari"]
def table_check(w, also=(), n=(900, 6000), beh=(25, 150), model=True, labs=LABS, fill=(0, 0), pre=None, **kw):
    def go(ctx):
        if pre: pre(ctx)
        k = ctx.n(*fill)
        if k: run_table(ctx, [hist.fill_history(ctx.r, FILL[i % len(FILL)], {}) for i in range(k)], also, what="tables filled up")
        if model: small_models(ctx)
        b = spec_behaviours(ctx, ctx.n(*beh))
        if b: run_table(ctx, b, also, what="behaviours of the specification replayed")
        total = ctx.n(*n)
        while total > 0 and ctx.left() > 60:
            run_table(ctx, histories(ctx, min(total, 1200), w, labs=labs, **kw), also, what="random histories")
            total -= 1200
    return go

FS = ("-", "ext2", "fat16", "fat32", "linux-swap(v1)", "ntfs", "hfs", "xfs")
def attr_check(w, also=(), n=(400, 3000), na=(900, 6000), labs=LABS, pre=None):
    """Histories in which the attributes of the partitions change as well."""
    wa = {"attr": 12, "add": .5, "rm": .5, "dflag": .5, "commit": .4, "commitread": 1.5, "dup": 1, "setgeom": .5, "max": .2}
    wa = {k: (w[k] if k in w and w[k] > v else v) for k, v in wa.items()}
    def go(ctx):
        if pre: pre(ctx)
        tot, tota = ctx.n(*n), ctx.n(*na)
        while (tot > 0 or tota > 0) and ctx.left() > 60:
            if tot > 0:
                run_table(ctx, histories(ctx, min(tot, 1200), w, labs=labs, fs=FS), also, what="random histories")
            if tota > 0:
                hs = [hist.attr_history(ctx.r, labs[i % len(labs)], {"w": dict(wa), "fs": list(FS)}, 22) for i in range(min(tota, 1000))]
                run_table(ctx, hs, also, what="attribute histories")
            tot -= 1200; tota -= 1000
    return go

def known_if(ctx, what, lines, pred, **kw):
    """The same for what the trace specification does not show: pred looks at the driver's answers."""
    o = hist.run_driver(ctx.build, [lines], **kw)[0]
    if pred(o): ctx.finding(what)

def findings03(ctx):
    nums = lambda o: [q[0] for q in o["st"]["p"] if q[1] in (0, 1, 2)]
    known_if(ctx, "atari: adding a logical partition that is refused renumbers the primary partitions",
             ["dev 0 684 512 16 2 0", "new 0 0 atari", "add 0 x - 249 572 any", "add 0 l - 249 356 any", "add 0 p - 33 140 any", "add 0 l - 224 224 any"],
             lambda o: len(o) > 5 and not o[5]["ok"] and nums(o[4]) != nums(o[5]))

def known(ctx, clause, what, lines, module="TableTrace"):
    """A known finding: the history is run and judged; while it still fails it is named."""
    hist.RAW = True
    try:
        o = hist.run_driver(ctx.build, [lines])[0]
        rej, _, _, _ = tlc.check(module, [hist.to_events(lines, o, {})])
    finally: hist.RAW = False
    if any(c == clause for _, _, c in rej): ctx.finding(what)

RB = ["commit 0", "read 0 0"]
def findings06(ctx):
    known(ctx, "C06.attributes", "bsd: the boot flag of a partition is not recorded", ["dev 0 1000 512 4 8 0", "new 0 0 bsd", "add 0 p ext2 10 200 any", "flag 0 1 boot 1"] + RB)
    known(ctx, "C06.attributes", "dvh: the boot flag of an unnamed boot file is not recorded",
          ["dev 0 9000 512 4 8 0", "new 0 0 dvh", "add 0 l - 100 250 any", "add 0 l - 300 450 any", "flag 0 18 boot 1"] + RB)
    known(ctx, "C06.attributes", "mac: the root flag of a partition whose lvm flag is on is not recorded",
          ["dev 0 9000 512 4 8 0", "new 0 0 mac", "add 0 p ext2 100 250 any", "flag 0 2 root 1", "flag 0 2 lvm 1"] + RB)
    known(ctx, "C06.label", "msdos: a table with a partition of type id 0xee is not recognised",
          ["dev 0 9000 512 4 8 0", "new 0 0 msdos", "add 0 p ext2 100 250 any", "typeid 0 1 0xee"] + RB)

GPTCFG = """CONSTANTS NA=%d Order <- %s MaxVer=%d MaxDamage=%d
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS CrashSafe Finished OneCopy NoInvention
PROPERTIES Monotone
"""
def check08(ctx):
    na, mv, md = (3, 4, 3) if ctx.quick else (5, 5, 5)
    model_check(ctx, "Gpt", [("commit order of libparted", GPTCFG % (na, "LibOrder", mv, md))], "exhaustive model of commits, crashes and damage", timeout=800)
    rc, o = tlc.run_tlc("Gpt", GPTCFG % (2, "BadOrder", 3, 1))     # the model notices an order that is not safe
    if "Invariant CrashSafe is violated" not in o: raise tlc.ToolError("the model accepts an unsafe order of writes\n" + o[-2000:])
    tot = ctx.n(800, 12000); kinds = ["crash", "damage", "damage", "grown"]
    while tot > 0 and ctx.left() > 60:
        hs = [gpt.history(ctx.r, kinds[i % 4]) for i in range(min(tot, 800))]
        run_table(ctx, hs, module="GptTrace", conv=gpt.conv, what="commits cut off, damaged copies, grown devices")
        tot -= 800

def damaged(ctx):
    run_table(ctx, [gpt.history(ctx.r, ["grown", "damage", "grown", "crash"][i % 4]) for i in range(ctx.n(300, 3000))], module="GptTrace", conv=gpt.conv, what="reading damaged and grown devices, repairs declined")

def dups(ctx):
    run_table(ctx, [gpt.history(ctx.r, "dup") for _ in range(ctx.n(200, 2000))], module="GptTrace", conv=gpt.conv, what="duplicates of tables with headers of any shape committed")

EXC = """CONSTANTS MaxCnt=%d MaxThrown=%d Depth=%d Gen=%d
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
%s"""
TIM = """CONSTANTS NS=%d Fracs={%s} MaxT=%d Depth=%d Gen=%d
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
%s"""
def fault_runs(ctx, n, kinds):
    hs = [faults.history(ctx.r, hist.GEO_LABELS[(i // len(kinds)) % 12], kinds[i % len(kinds)]) for i in range(n)]
    while hs and ctx.left() > 60:
        run_table(ctx, hs[:1200], module="FaultTrace", conv=faults.conv, pre=("watch 1", "attrs 1"), what="library operations with I/O errors and fetch-all sections")
        hs = hs[1200:]

def check11(ctx):
    model_check(ctx, "MCException", [("throws, sections, handlers", EXC % (3, ctx.n(5, 8), 0, 0, "INVARIANT Accounted\nPROPERTIES Quiet Stays Restored\n"))], "exhaustive model")
    b = behaviours(ctx, [EXC % (3 + j % 3, 0, 40, 1, "") for j in range(8)], ctx.n(60, 600), module="MCException")
    run_table(ctx, [["names"] + x for x in b], module="ExcTrace", conv=misc.exc, driver="misc", pre=(), what="behaviours of the specification replayed")
    fault_runs(ctx, ctx.n(500, 6000), ["any", "any", "commit", "read"])

DEV = """CONSTANTS Paths={%s} MaxObj=%d MaxOpen=%d MaxWrite=%d NSec=%d Depth=%d Gen=%d
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
%s"""
def device_runs(ctx, n, model=True):
    if model:
        mw, mo = (2, 2) if ctx.quick else (3, 3)
        model_check(ctx, "MCDevice", [("two paths", DEV % ("0,1", mo, 2, mw, 2, 0, 0, "INVARIANTS FdIff OnePerPath CacheLive Reads\nPROPERTIES RoSafe Counted\n"))], "exhaustive model of devices", timeout=800)
    b = behaviours(ctx, [DEV % ("0,1,2", 4 + j % 4, 3, 99, 16, 60, 1, "") for j in range(8)], n, module="MCDevice")
    run_table(ctx, b, module="DeviceTrace", conv=devs.conv, driver="dev", pre=(), what="behaviours of the device specification replayed on files")

def findings12(ctx):
    known_if(ctx, "pc98: a label whose second sector cannot be read is taken for an msdos one",
             ["dev 0 4000 512 8 17 0", "new 0 0 pc98", "add 0 p ext2 136 1000 any", "commit 0", "badread 0 1 1", "!cc read 1 0"],
             lambda o: o[5]["ok"] and o[5]["st"]["lab"] == "msdos")

def check12(ctx):
    findings12(ctx)
    device_runs(ctx, ctx.n(40, 400))
    fault_runs(ctx, ctx.n(720, 9000), ["commit", "read", "commit", "any"])

def check20(ctx):
    model_check(ctx, "MCTimer", [("three timers", TIM % (ctx.n(2, 3), "0,64" if ctx.quick else "0,32,64", 1, 0, 0, "INVARIANTS OneCall InUnit Ordered\nPROPERTY Share\n"))], "exhaustive model", timeout=800)
    b = behaviours(ctx, [TIM % (3, "0,1,8,16,32,40,48,63,64", 0, 45, 1, "") for j in range(8)], ctx.n(60, 600), module="MCTimer")
    run_table(ctx, b, module="TimerTrace", conv=misc.timer, driver="misc", pre=(), what="behaviours of the specification replayed")

MCC = 'CONSTANTS Kind="%s" L=%d G=%d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS MeetIsBoth NearestIsNearest Solves MeetAllowsBoth\n'
def check04(ctx):
    known_if(ctx, "the solver gives up where another start than the nearest has an end aligned to a grain greater than one",
             ["len 12", "con 0 0 1 0 4 1 3 0 11 2 2"], lambda o: o[1]["near"][0][0] < 0, driver="cs", pre=())
    model_check(ctx, "MCConstraint", [("%s %d %d" % x, MCC % x) for x in (("align", 6, ctx.n(6, 9)), ("range", 5, 4), ("solve", 4, ctx.n(2, 4)), ("meet", 3, ctx.n(2, 3)))],
                "the operators against their definition", timeout=800)
    def go(hs, what): run_table(ctx, hs, module="ConstraintTrace", conv=cs.conv, driver="cs", pre=(), what=what)
    c = cs.small(ctx.r, ctx.n(5, 9), ctx.n(5, 8)); ctx.r.shuffle(c)
    go([c[i:i + 300] for i in range(0, len(c), 300)], "every small alignment, pair of alignments, region and pair of regions")
    for _ in range(ctx.n(1, 12)):
        if ctx.left() < 60: break
        go([cs.scaled(ctx.r, 60) for _ in range(500)], "alignments and regions at scale")
        go([cs.cons(ctx.r, 16) for _ in range(400)], "constraints made, met and solved for every region")

RLB = 'CONSTANTS Depth=%d Gen=%d KeepS0=0\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\n%s\n'
def check16(ctx):
    known_if(ctx, "pc98: a label made on a device whose sectors are not of 512 bytes reads back as an empty msdos one",
             ["dev 0 20000 2048 8 17 0", "new 0 0 pc98", "add 0 p ext2 6000 8000 any", "commit 0", "probe 0"], lambda o: o[4]["ty"] == "msdos")
    model_check(ctx, "MCRelabel", [("two tables", RLB % (0, 0, "INVARIANT Recognised"))], "exhaustive model of marks and clobbering", timeout=800)
    def go(hs, what): run_table(ctx, hs, module="RelabelTrace", conv=relabel.conv, what=what)
    b = behaviours(ctx, [RLB % (40 + 5 * j, 1, "CONSTRAINT Depthly") for j in range(8)], ctx.n(150, 1500), module="MCRelabel")
    go([["dev 0 " + relabel.dev(ctx.r, 0)] + x[1:] for x in b], "behaviours of the specification replayed")
    A = relabel.ALL
    go([relabel.history(ctx.r, [a, b], 3) for a in A for b in A for _ in range(2)], "every label over every other")
    if not ctx.quick: go([relabel.history(ctx.r, [a, b, c], 4) for a in A for b in A for c in A], "every sequence of three labels")
    for _ in range(ctx.n(1, 15)):
        if ctx.left() > 60: go([relabel.history(ctx.r, [], 9) for _ in range(ctx.n(400, 1200))], "random sequences over leftovers")

KRN = "CONSTANTS Cells=%d Nums={%s} Lim=%d MS=%d Gen=%d Mixed=0 Depth=%d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n%s\n"
def check14(ctx):
    inv = "INVARIANTS Reported Blame Safe Sound"
    model_check(ctx, "MCKernel", [("%d cells, numbers %s, kernel limit %d, label limit %d" % a, KRN % (a + (0, 0, inv))) for a in
                [(4, "1,2", l, m) for l in (0, 1, 2) for m in (1, 2)] + ([] if ctx.quick else [(3, "1,2,3", 3, 3), (3, "1,2,3", 2, 3), (3, "1,2,3", 3, 2), (5, "1,2", 2, 2)])], "exhaustive model of the two passes", timeout=700)
    def go(hs, what): run_table(ctx, hs, module="KernTrace", conv=kern.conv, what=what, driver="kern", pre=())
    b = behaviours(ctx, [KRN % (12, "1,2,3,4,5,6,7", 8, 8, 1, 24 + 4 * j, "CONSTRAINT Depthly") for j in range(8)], ctx.n(100, 800), module="MCKernel")
    go([kern.fill(ctx.r, x) for x in b], "behaviours of the specification replayed")
    for _ in range(ctx.n(1, 12)):
        if ctx.left() > 60: go([kern.history(ctx.r) for _ in range(ctx.n(1000, 2500))], "random tables, views and uses"); go([kern.full(ctx.r) for _ in range(ctx.n(150, 400))], "as many partitions as the kernel takes, and more")

UNI = 'CONSTANTS L=%d SS=%d H=%d S=%d Powers <- Small\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS OnePrinted RoundTrip Texts Arith\n'
def check13(ctx):
    model_check(ctx, "MCUnits", [("%d sectors of %d bytes, %d heads, %d sectors" % a, UNI % a) for a in
                [(50, 4, 2, 3), (60, 8, 2, 3), (101, 2, 3, 4)] + ([] if ctx.quick else [(300, 4, 2, 3), (250, 16, 3, 5), (600, 2, 7, 3), (25, 1, 1, 1)])], "every position printed and read back, every text", timeout=800)
    tot = ctx.n(1500, 24000)
    while tot > 0 and ctx.left() > 60:
        run_table(ctx, [units.history(ctx.r) for _ in range(min(tot, 1500))], module="UnitTrace", conv=units.conv, what="random texts and positions", driver="unit", pre=())
        tot -= 1500

LIM = 'CONSTANTS L=%d M=%d K=%d Cyl=%d Check=%d ByCyl=%d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS NoWrap %s\n'
def check15(ctx):
    for a in [(12, 5, 1, 1, 1, 0), (24, 8, 4, 3, 1, 1)] + ([] if ctx.quick else [(18, 8, 1, 1, 1, 0), (80, 8, 8, 4, 1, 1)]):
        model_check(ctx, "MCLimits", [("%d sectors, fields of %d, %d cylinders of %d" % a[:4], LIM % (a + ("Tight",)))], "tables within the limits of the fields are recorded as they are")
    for a in [(12, 5, 1, 1, 0, 0), (24, 8, 4, 3, 0, 1)]:
        rc, out = tlc.run_tlc("MCLimits", LIM % (a + ("",)))
        if not (rc and "NoWrap" in out): raise SystemExit("MCLimits: a table without limits should wrap")
    tot = ctx.n(3000, 40000)
    while tot > 0 and ctx.left() > 60:
        run_table(ctx, [limits.history(ctx.r, limits.LABS[j % len(limits.LABS)]) for j in range(min(tot, 1500))], module="LimitTrace", conv=limits.conv, what="random tables around the limits", driver="table")
        tot -= 1500

def large(ctx):
    run_table(ctx, [limits.history(ctx.r, limits.LABS[j % len(limits.LABS)], 14) for j in range(ctx.n(1000, 10000))], module="LimitTrace", conv=limits.conv, what="tables on devices of any size, around what labels record", driver="table")

PROBE = 'CONSTANT Step=%d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Alone Damage Beyond Elsewhere\n'
def check18(ctx):
    for ss in (512, 2048) if ctx.quick else (512, 1024, 2048, 4096):
        f = os.path.join(tlc.scratch("probe"), "samples.json")
        with open(f, "w") as fh: json.dump(probe.samples(ctx.r, ss), fh)
        model_check(ctx, "MCProbe", [("sectors of %d" % ss, PROBE % (16 if ctx.quick else 1))], "each byte that identifies a file system set to other values", timeout=800, env={"SAMPLES": f})
        shutil.rmtree(os.path.dirname(f))
    tot = ctx.n(5000, 60000)
    while tot > 0 and ctx.left() > 60:
        run_table(ctx, [probe.history(ctx.r, probe.TYPES[j % len(probe.TYPES)]) for j in range(min(tot, 2500))], module="ProbeTrace", conv=probe.conv, what="file systems laid out, damaged, moved and overwritten", driver="fs", pre=())
        tot -= 2500

SCR = """CONSTANTS LabSet={%s} Starts=%d Ends=%d Ns={%s} Depth=%d Gen=%d Parts=%d
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTRAINT Depthly
%s"""
def check17(ctx):
    inv = "INVARIANTS Sound Honest Firm Undone Unitless Fence"
    cf = [('"%s"' % l, 0, 0, "1", 8, 0, 1, inv) for l in ("gpt", "msdos")] + ([] if ctx.quick else [('"%s"' % l, 0, 0, "1,2", 8, 0, 2, inv) for l in ("gpt", "msdos")] + [('"%s"' % l, 1, 1, "1", 8, 0, 1, inv) for l in ("gpt", "msdos")])
    model_check(ctx, "MCScript", [("%s, up to %d partitions, places %d" % (c[0], c[6], c[1]), SCR % c) for c in cf], "what commands make of a table", timeout=800)
    b = behaviours(ctx, [SCR % (['"gpt"', '"msdos"', '"gpt","msdos"', '"gpt"'][j % 4], 1, 1, "1,2,3", 25, 1, 4, "") for j in range(4 if ctx.quick else 8)], ctx.n(40, 300), module="MCScript")
    run_table(ctx, [cli.script(ctx.r, x) for x in b], module="ScriptTrace", conv=cli.conv, what="behaviours of the specification, run as scripts", driver="cli", pre=())
    run_table(ctx, [cli.lost(ctx.r) for _ in range(ctx.n(100, 1500))], module="ScriptTrace", conv=cli.conv, what="file systems that no partition holds, and rescue", driver="cli", pre=())
    tot = ctx.n(2500, 30000)
    while tot > 0 and ctx.left() > 60:
        run_table(ctx, [cli.history(ctx.r) for _ in range(min(tot, 1250))], module="ScriptTrace", conv=cli.conv, what="random runs of commands, right and wrong", driver="cli", pre=())
        tot -= 1250

FAT = """SPECIFICATION Spec
CONSTANTS N = %d  Meta = %d  Used = %d
INVARIANTS Intact Held Apart Whole Fence Last
CHECK_DEADLOCK FALSE
"""
def check19(ctx):
    model_check(ctx, "MCFat", [("%d sectors, tables of up to %d, %d in use" % x, FAT % x) for x in ([(6, 2, 2), (6, 3, 3)] if ctx.quick else [(7, 3, 3), (8, 2, 2), (8, 3, 2)])], "what is copied and written, in which order, when a file system is resized", timeout=800)
    tot = ctx.n(3000, 40000)
    while tot > 0 and ctx.left() > 60:
        run_table(ctx, [fatfs.history(ctx.r) for _ in range(min(tot, 1000))], module="FatTrace", conv=fatfs.conv, what="FAT file systems laid out, resized and moved", driver="fat", pre=())
        tot -= 1000

CHECKS = {
 "C19": check19,
 "C17": check17,
 "C18": check18,
 "C13": check13, "C15": check15,
 "C14": check14,
 "C16": check16,
 "C04": check04,
 "C11": check11, "C12": check12, "C20": check20,
 "C08": check08,
 "C01": table_check(weights(attr=.5)),
 "C02": table_check(weights(attr=3), pre=large, also=("C03.kept", "C07.write"), fs=("-", "ext2", "fat32", "linux-swap(v1)", "ntfs")),
 "C03": table_check(weights(rm=5, commitread=3), also=("C02.others",), fill=(90, 900), pre=findings03),
 "C05": table_check(weights(max=4, maxgeom=4)),
 "C06": attr_check(weights(attr=8, commitread=6, rm=2), n=(500, 3000), na=(700, 4000), also=("C09.meaning",), pre=findings06),
 "C07": table_check(weights(boot=2, commit=2, commitread=3, attr=2), pre=damaged, n=(700, 5000), also=("C02.write",), fs=FS),
 "C09": attr_check({"attr": 12, "add": .4, "rm": .3, "dflag": .5, "commitread": .4, "dup": .3, "setgeom": .2}, n=(0, 0), na=(1500, 9000)),
 "C10": attr_check(weights(dup=6, attr=5), n=(500, 3000), na=(600, 4000), pre=dups),
}
if __name__ == "__main__": sys.exit(core.main(CHECKS))
