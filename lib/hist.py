"""Histories for the table driver: text generation, execution, and translation of the driver's
output into trace events for spec/TableTrace.tla."""
import json, random, subprocess, os, re
from concurrent.futures import ThreadPoolExecutor

EXTL = ("msdos", "dvh", "atari")
GEO_LABELS = ["gpt", "msdos", "msdos", "msdos", "sun", "mac", "dvh", "bsd", "amiga", "pc98", "loop", "atari"]

class Dev:
    def __init__(s, length, ss=512, heads=4, secs=4, bg=0):
        s.len, s.ss, s.h, s.sc, s.bg = length, ss, heads, secs, bg
    @property
    def cyl(s): return s.h * s.sc
    def cmd(s, i): return "dev %d %d %d %d %d %d" % (i, s.len, s.ss, s.h, s.sc, s.bg)

def rnd_dev(r, lab, big=False):
    h, sc = r.choice([(2, 3), (4, 4), (3, 5), (4, 8), (1, 7), (2, 16), (5, 1), (16, 2)])
    ss, bg = 512, r.choice([0, r.randrange(1, 10**6)])
    if lab == "gpt":
        ss = r.choice([512, 512, 512, 1024, 2048, 4096])
        n = 2 * (1 + -(-16384 // ss)) + 2 + r.randrange(4, 240)
    elif lab in ("mac",): n = r.randrange(256, 700)
    elif lab == "amiga": n = 275 + r.randrange(60, 500)
    elif lab == "loop": n = r.randrange(256, 400)
    elif lab == "dvh": n = r.choice([r.randrange(60, 300), r.randrange(4100, 5200)])
    elif lab == "msdos":
        n = r.randrange(40, 500); ss = r.choice([512, 512, 512, 512, 1024, 4096])
    else: n = r.randrange(60, 500)
    if big and r.random() < .5:
        h, sc = r.choice([(255, 63), (16, 63), (64, 32), (128, 32)])
        n = max(n, r.choice([20000, 300000, 2000000, 50000000]) + r.randrange(0, 40000))
        if lab in ("dvh", "bsd", "sun", "amiga", "pc98", "atari", "mac"): n = min(n, 60000000)
        if lab == "sun": n = min(n, h * sc * 65535 - 1)
    return Dev(n, ss, h, sc, bg)

class Gen:
    """One random history on one label."""
    def __init__(s, r, lab, dev, prof):
        s.r, s.lab, s.dev, s.L = r, lab, dev, []
        s.prof = prof
        s.pts = [0, 1, 2, dev.len - 1, dev.len - 2, dev.len // 2, dev.len // 3, dev.cyl, dev.sc, 2 * dev.cyl - 1, dev.len - dev.cyl]
        if lab == "gpt":
            g = -(-16384 // dev.ss); s.pts += [2 + g, dev.len - 2 - g, 1 + g, dev.len - 1 - g]
        if lab == "amiga": s.pts += [274, 275, 275 + dev.cyl]
        if lab == "mac": s.pts += [63, 64]
        s.nums = [1, 2, 3] + ([5, 6, 7] if lab == "msdos" else [9, 17, 18] if lab == "dvh" else [])
        s.added = 0
        s.live = {0}
        s.family = r.choice("ab")      # mac: see attr()
    def pt(s):
        r = s.r
        if r.random() < .55: v = r.choice(s.pts) + r.choice([-2, -1, 0, 0, 0, 1, 2])
        else: v = r.randrange(s.dev.len)
        if r.random() < .3: v = v // s.dev.cyl * s.dev.cyl + r.choice([0, 0, s.dev.sc])
        return max(0, min(v, s.dev.len - 1))
    def span(s):
        r = s.r
        if r.random() < .75 and s.dev.len > 12:
            w = r.choice([1, 2, 3, 5, 10, 20, s.dev.cyl, 2 * s.dev.cyl, s.dev.len // 8, s.dev.len // 4])
            a = s.pt(); b = min(s.dev.len - 1, a + max(0, w - 1 + r.choice([0, 0, -1, 1])))
            if r.random() < .4:  # cylinder-aligned
                c = s.dev.cyl; a = a // c * c; b = max(a, (b + 1) // c * c - 1)
                if b < a: b = a
                b = min(b, s.dev.len - 1)
        else:
            a, b = s.pt(), s.pt()
        if b < a: a, b = b, a
        s.pts += [a, b]; s.pts = s.pts[-30:] if len(s.pts) > 45 else s.pts
        return a, b
    def align(s):
        r = s.r
        return r.choice([(0, 1), (0, 1), (0, 1), (0, 2), (1, 3), (0, 4), (3, 4), (2, 6), (5, 12), (0, s.dev.cyl), (s.dev.sc, s.dev.cyl), (0, 8)])
    def cs(s, a, b):
        r = s.r; x = r.random()
        if x < .38: return "exact %d %d" % (a, b)
        if x < .6: return "any"
        if x < .61: return "none"
        n = s.dev.len
        def around(v):
            w = r.choice([0, 1, 3, 10, s.dev.cyl, n])
            lo, hi = max(0, v - w), min(n - 1, v + r.choice([w, 0, 1, n]))
            return lo, max(lo, hi)
        sl, sh = around(a); el, eh = around(b)
        sa, ea = s.align(), (s.align() if r.random() < .4 else (0, 1))
        mn = r.choice([1, 1, 1, 2, 5, max(1, b - a)]); mx = r.choice([n, n, n, max(mn, b - a + 1), max(mn, 7)])
        return "range %d %d %d %d %d %d %d %d %d %d" % (sl, sh, el, eh, sa[0], sa[1], ea[0], ea[1], mn, mx)
    def num(s):
        n = s.r.choice(s.nums)
        return 2 if s.lab == "mac" and n == 1 else n   # the mac map itself stays where it is
    def add(s, k=0, kind=None):
        r = s.r; a, b = s.span()
        if kind is None:
            kind = "p"
            if s.lab in EXTL: kind = r.choice(["p", "p", "x", "l", "l", "l"])
            elif r.random() < .02: kind = r.choice(["x", "l"])
        if kind == "x" and r.random() < .7:
            a = r.randrange(s.dev.len // 2); b = r.randrange(a, s.dev.len)
            s.pts += [a + 1, a + 2, b, b - 1]
        s.added += 1
        if kind == "l" and s.lab == "msdos": s.nums.append(5 + s.r.randrange(5))
        else: s.nums.append(1 + s.r.randrange(min(s.added + 1, 16)))
        if kind == "x": kk = "x"
        fs = s.prof.get("fs", ["-"])
        if s.lab == "mac": fs = [f for f in fs if not f.startswith("hfs" if s.family == "a" else "linux")]
        s.L.append("add %d %s %s %d %d %s" % (k, kind, r.choice(fs), a, b, s.cs(a, b)))
    def op(s, k=0):
        r = s.r
        w = s.prof["w"]; o = r.choices(list(w), list(w.values()))[0]
        a, b = s.span()
        if o == "add": s.add(k)
        elif o == "setgeom": s.L.append("setgeom %d %d %d %d %s" % (k, s.num(), a, b, s.cs(a, b)))
        elif o == "setgeombad": s.L.append("setgeom %d %d %d %d any" % (k, s.num(), b + 1, a))
        elif o == "max":
            s.L.append("max %d %d %s" % (k, s.num(), s.cs(a, b) if r.random() < .5 else "any"))
        elif o == "maxgeom":
            c = s.cs(a, b) if r.random() < .5 else "any"; n = s.num()
            s.L.append("maxgeom %d %d %s" % (k, n, c))
            if r.random() < .5: s.L.append("max %d %d %s" % (k, n, c))
        elif o == "minext": s.L.append("minext %d" % k)
        elif o == "rm":
            n = s.num()
            if s.lab == "loop" and r.random() < .7: return
            s.L.append("rm %d %d" % (k, n))
        elif o == "delall":
            if s.lab != "mac": s.L.append("delall %d" % k)
        elif o == "bysec": s.L.append("bysec %d %d" % (k, s.pt()))
        elif o == "check": s.L.append("check %d" % k)
        elif o == "dflag":
            if s.lab == "msdos": s.L.append("dflag %d cylinder_alignment %d" % (k, r.choice([0, 0, 1])))
            elif s.lab == "gpt": s.L.append("dflag %d pmbr_boot %d" % (k, r.choice([0, 1])))
        elif o == "commit": s.L.append("commit %d" % k)
        elif o == "commitread":
            s.L.append("commit %d" % k); s.L.append("read %d 0" % (k,))
            if r.random() < .4: s.L.append("commit %d" % k)
        elif o == "dup":
            j = r.choice([1, 2])
            if s.live >= {j} and r.random() < .5: s.L.append("destroy %d" % j); s.live.discard(j); return
            s.L.append("dup %d %d" % (k, j)); s.live.add(j)
            for _ in range(r.randrange(0, 3)):
                kk = r.choice([k, j]); n0 = len(s.L)
                s.op2(kk)
                if len(s.L) > n0:
                    for q in sorted(s.live - {kk}): s.L.append("state %d" % q)
        elif o == "attr": s.attr(k)
        elif o == "boot":
            # bytes that belong to boot code, where the label keeps such code
            off, n = {"msdos": (0, 440), "gpt": (0, 440), "pc98": (12, 400), "bsd": (1, 62), "atari": (4, 300)}.get(s.lab, (0, 0))
            if n:
                o1 = off + r.randrange(0, n - 16)
                s.L += ["commit %d" % k, "poke 0 0 %d %s" % (o1, "%032x" % (r.getrandbits(128) | 1 << 120)), "read %d 0" % k, "peek 0 0 %d 16" % o1]
                for _ in range(r.randrange(0, 3)): s.op2(k)
                s.L.append("commit %d" % k); s.L.append("peek 0 0 %d 16" % o1)
    def op2(s, k):
        w = s.prof["w"]; save = dict(w); s.prof["w"] = {x: y for x, y in w.items() if x not in ("dup", "commitread", "commit", "boot")}
        s.op(k); s.prof["w"] = save
    def attr(s, k):
        r = s.r; n = s.num(); x = r.random()
        if s.lab not in ("gpt", "mac", "dvh", "amiga", "pc98") and .5 <= x < .68 and r.random() < .9: x = r.random()
        if s.lab not in ("msdos", "gpt") and x >= .83 and r.random() < .95: x = r.random() * .83
        if s.lab == "gpt" and .83 <= x < .92: x = .95
        if s.lab == "msdos" and x >= .92: x = .85
        if r.random() < .6: n = r.choice({"mac": [2, 2, 3], "msdos": [1, 1, 2, 5, 5, 6], "dvh": [1, 1, 17, 17, 18], "sun": [1, 1, 2]}.get(s.lab, [1, 1, 1, 2]))
        if getattr(s, "many", 0) and r.random() < .7: n = r.randrange(1, s.many + 2)
        FL = {"msdos": ["boot", "root", "swap", "hidden", "raid", "lvm", "lba", "palo", "prep", "diag", "esp", "irst", "msftres", "bls_boot"],
              "gpt": ["boot", "bios_grub", "hidden", "raid", "lvm", "swap", "hp-service", "prep", "msftres", "msftdata", "atvrecv", "diag", "legacy_boot", "irst", "esp", "chromeos_kernel", "bls_boot", "linux-home", "no_automount"],
              "sun": ["boot", "root", "lvm", "raid"], "mac": ["boot", "root", "swap", "lvm", "raid"], "dvh": ["root", "swap", "boot"],
              "bsd": ["boot", "raid", "lvm"], "amiga": ["boot", "hidden", "raid", "lvm"], "pc98": ["boot", "hidden"], "loop": ["boot"], "atari": ["boot"]}
        # mac: "root" and "swap" are recorded only for the plain type (known finding of C06), so a
        # history sets either those or the flags and file systems that change the type
        FL["mac"] = ["root", "swap"] if s.family == "a" else ["boot", "lvm", "raid"]
        fss = ["ext2", "ext4", "fat16", "fat32", "ntfs", "linux-swap(v1)", "hfs", "hfs+", "sun-ufs", "-", "xfs", "affs1", "udf", "btrfs", "reiserfs", "jfs"]
        if s.lab == "mac": fss = [f for f in fss if not f.startswith("hfs" if s.family == "a" else "linux")]
        if x < .5:
            f = r.choice(FL[s.lab]) if r.random() < .93 else r.choice(["lba", "esp", "diag", "prep"])
            s.L.append("flag %d %d %s %d" % (k, n, f, r.choice([1, 1, 0])))
        elif x < .68:
            m = r.choice([8, 12, 16, 31, 32, 36, 5, 1])
            m = max(1, m + r.choice([-1, 0, 0, 1]))
            nm = "".join(r.choice("abcXYZ 09-_") for _ in range(m)).strip() or "x"
            s.L.append("name %d %d %s" % (k, n, nm.encode().hex()))
        elif x < .83: s.L.append("system %d %d %s" % (k, n, r.choice(fss)))
        elif x < .92: s.L.append("typeid %d %d %d" % (k, n, r.choice([0x83, 0x82, 0x07, 0x0b, 0x0c, 0x06, 0x0e, 0x17, 0x1b, 0x8e, 0xfd, 0xef, 0x12, 0x84, 0x41, 0xf0, 0x27, 0xea, 0x05, 0x0f, 0x85, 0, 0x42, r.randrange(0xee), r.randrange(0xef, 256)])))   # 0xee: known finding of C06
        else: s.L.append("typeuuid %d %d %s" % (k, n, r.choice(["28732ac11ff8d211ba4b00a0c93ec93b", "a2a0d0ebe5b9334487c068b6b72699c7", "%032x" % r.getrandbits(128)])))

def attr_history(r, lab, prof, nops):
    """A few partitions first, then mostly changes of flags, names and types."""
    d = rnd_dev(r, lab)
    d.len = max(d.len, 12 * d.cyl + 300 + (4200 if lab == "dvh" else 0))
    g = Gen(r, lab, d, prof)
    g.L += [d.cmd(0), "new 0 0 %s" % lab]
    if lab == "msdos" and r.random() < .6: g.L.append("dflag 0 cylinder_alignment 0")
    n, q = d.len, d.len // 6
    if lab == "gpt":
        a = 3 + -(-16384 // d.ss); n -= a; q = (n - a) // 6
    else: a = {"mac": 70, "amiga": 276, "dvh": 4100}.get(lab, d.cyl + 1); q = (n - a) // 6
    def add(kind, i, w=1):
        fs = r.choice(prof.get("fs", ["-"]))
        if lab == "mac" and fs.startswith("hfs" if g.family == "a" else "linux"): fs = "-"
        g.L.append("add 0 %s %s %d %d any" % (kind, fs, a + i * q, a + (i + w) * q - 1)); g.added += 1
    k = r.randrange(2, 5)
    if lab in ("gpt", "mac", "dvh", "amiga", "pc98", "bsd", "sun") and q > 6 * d.cyl and r.random() < .15:     # many small ones
        g.many = r.randrange(7, 17); q //= 3
        for i in range(g.many): add("p", i)
    elif lab in ("msdos", "atari") and r.random() < .7:
        add("x", 2, 3); add("l", 2); add("l", 3)
        if r.random() < .5: add("l", 4)
        g.nums += [5, 6, 7]
    elif lab == "dvh":
        for i in range(r.randrange(4)):
            g.L.append("add 0 l - %d %d any" % (100 + 200 * i, 250 + 200 * i)); g.nums.append(17 + i)
    for i in range(0 if getattr(g, "many", 0) else 1 if lab == "loop" else min(k, 2 if lab in ("msdos", "atari") else 4)): add("p", i)
    g.nums = [i for i in g.nums if i < 8 or lab != "msdos"]
    for _ in range(nops): g.op(0)
    return g.L

def table_history(r, lab, prof, nops, big=False):
    d = rnd_dev(r, lab, big)
    g = Gen(r, lab, d, prof)
    g.L += [d.cmd(0), "new 0 0 %s" % lab]
    if lab == "msdos" and r.random() < .6: g.L.append("dflag 0 cylinder_alignment 0")
    if r.random() < .3: g.L.append("commit 0")
    for _ in range(nops): g.op(0)
    return g.L

def fill_history(r, lab, prof):
    """As many partitions as the label takes and a few more; then some are removed and others take their place."""
    d = rnd_dev(r, lab)
    mx = {"gpt": 130, "amiga": 130, "msdos": 64, "sun": 10, "mac": 64, "dvh": 18, "bsd": 10, "pc98": 18, "atari": 12, "loop": 2}[lab]
    if lab in ("gpt", "amiga") and r.random() < .8: mx = 12
    full = mx
    if lab == "msdos": full = r.choice([6, 63])
    if lab == "msdos": d.h, d.sc, d.ss = r.choice([(1, 1), (2, 1), (1, 2)]) + (512,)
    d.h, d.sc = (d.h, d.sc) if d.cyl <= 16 else (2, 2)
    size = max(2, d.cyl)
    a0 = {"gpt": 3 + -(-16384 // d.ss), "mac": 64, "amiga": 275 + d.cyl, "dvh": 100, "msdos": 6 * d.cyl}.get(lab, d.cyl)
    a0 = -(-a0 // d.cyl) * d.cyl
    step = {"msdos": 4 * d.cyl}.get(lab, 2 * d.cyl)
    d.len = a0 + (full + 8) * step + 40 + (2 * (3 + 16384 // d.ss) if lab == "gpt" else 0) + (4200 if lab == "dvh" else 0)
    d.len = max(d.len, 300 if lab in ("mac", "loop") else 1)
    L = [d.cmd(0), "new 0 0 %s" % lab]
    kind = "p"
    if lab == "msdos":
        L.append("dflag 0 cylinder_alignment 0")
        for i in range(3): L.append("add 0 p - %d %d any" % ((i + 1) * d.cyl + 1, (i + 2) * d.cyl - 1 + (d.cyl == 1)))
        L.append("add 0 x - %d %d any" % (a0 - d.cyl, d.len - 1)); kind = "l"
    elif lab == "dvh" and r.random() < .5: kind = "l"
    dense = r.choice([0, 0, 1]) if lab != "msdos" else 0
    pos = [a0 + i * step for i in range(full + 3)]
    if r.random() < .3: r.shuffle(pos)
    n = 0
    for q in pos:
        w = step if dense else step - d.cyl if lab != "msdos" else step - 2 * d.cyl
        L.append("add 0 %s - %d %d any" % (kind, q, q + max(1, w) - 1)); n += 1
    if r.random() < .5: L += ["commit 0", "read 0 0"]
    first = {"l": 5 if lab == "msdos" else 17}.get(kind, 1)
    for _ in range(r.randrange(2, 6)):
        k = first + r.randrange(min(full, n))
        if lab == "mac" and k == 1: k = 2
        x = r.random()
        if x < .6: L.append("rm 0 %d" % k)
        elif x < .8:
            q = r.choice(pos); L.append("add 0 %s - %d %d any" % (kind, q + (step > d.cyl), q + max(1, step // 2) - 1))
        else: L.append("setgeom 0 %d %d %d any" % (k, pos[-1] + 1, pos[-1] + step - 2))
    for q in r.sample(pos, min(3, len(pos))): L.append("add 0 %s - %d %d any" % (kind, q, q + max(1, step - d.cyl) - 1))
    return L + ["commit 0", "read 0 0"]

class CrashError(Exception): pass

def tlc_work():
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "work"); os.makedirs(d, exist_ok=True); return d
def run_driver(build, histories, driver="table", pre=("attrs 1",), env=None, chunk=40, timeout=600):
    """Runs the histories (lists of command lines); returns per history a list of (cmd, json)."""
    chunks = [histories[i:i + chunk] for i in range(0, len(histories), chunk)]
    def one(ch):
        txt = []   # a command may carry a comment for the converter
        for j, h in enumerate(ch):
            txt.append("begin %d" % j); txt += list(pre) + h; txt.append("end")
        e = dict(os.environ); e.update(env or {}); e["VERIF_FLUSH"] = "1"; e.setdefault("VERIF_DIR", tlc_work())
        p = subprocess.run([os.path.join(build, driver)], input="\n".join(txt) + "\n", stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, env=e, timeout=timeout, errors="replace")
        out, cur = [], None
        for line in p.stdout.splitlines():
            if not line.startswith("{"): continue
            try: j = json.loads(line)
            except ValueError:
                j = {"c": "garbled", "ok": 0, "raw": line[:200]}
            if str(j.get("c", "")).startswith("begin "): cur = []; out.append(cur)
            elif cur is not None: cur.append(j)
        if len(out) < len(ch) and any(o and o[-1]["c"] == "stopped" for o in out):
            out += [[{"c": "skipped"}]] * (len(ch) - len(out))   # the driver gave up after several hangs
        if len(out) != len(ch):
            raise CrashError("driver stopped early (rc %s): %s" % (p.returncode, p.stderr[-500:]))
        return out
    with ThreadPoolExecutor(8) as ex: res = [y for x in ex.map(one, chunks) for y in x]
    return [x[len(pre):] if x[0]["c"] != "skipped" else x for x in res]

RAW = False   # compare everything a known finding's history shows
def fix_state(st):
    if not st: return []
    df = st.get("df", [])
    a = []
    for q in st.get("a", []):
        nm = q["nm"]
        if st["lab"] == "pc98" and not nm and q["fs"] not in ("", "-"): nm = q["fs"].encode().hex()   # recorded under the file system's name
        fl = q["fl"]
        # known findings of C06: bsd flags are not recorded; the dvh boot file is recorded by its name only
        if st["lab"] == "bsd" and not RAW: fl = []
        if st["lab"] == "dvh" and not RAW and (not nm or sum(z["nm"] == nm for z in st["a"]) > 1): fl = [f for f in fl if f != "boot" or st["lab"] != "dvh"]
        k = json.dumps([q["fl"], q["nm"], q["ti"], q["tu"], q["u"], q["fs"], q["av"]])
        a.append({"n": q["n"], "t": q["t"], "k": k, "rk": json.dumps([fl, nm, q["ti"], q["tu"], q["u"]]),
                  "fl": q["fl"], "av": q["av"], "fs": q["fs"], "nm": q["nm"], "ti": q["ti"], "tu": q["tu"], "u": q["u"]})
    return [{"lab": st["lab"], "len": st["len"], "p": st["p"], "a": a, "df": df, "dfr": [x for x in df if x != "cylinder_alignment"],
             "du": st.get("du", ""), "cyl": 1 if "cylinder_alignment" in df and st["lab"] == "msdos" else 0, "mp": st["mp"], "pc": st["pc"], "lp": st["lp"],
             "ms": st["ms"], "nc": st["nc"]}]

def parse_cs(t):
    if not t or t[0] in ("none",): return None
    if t[0] == "exact": return ("x", int(t[1]), int(t[2]))
    if t[0] == "any": return ("any",)
    return ("r",) + tuple(int(x) for x in t[1:11])

def to_events(cmds, outs, lens):
    """cmds: command lines; outs: driver objects; lens: device length by index (filled here)."""
    ev = []
    slotdev = {}
    for j, o in enumerate(outs):
        if o["c"] == "skipped": break
        if o["c"] in ("crash", "garbled", "stopped"):
            ev.append(blank("crash")); break
        line = cmds[j]; t = line.split(); ans = ""
        if t[0].startswith("!"): ans = t[0][1:]; t = t[1:]
        e = blank(t[0]); e.update(ok=o["ok"], x=o["x"], dg=o.get("dg", ""), nw=o.get("nw", 0), ans=ans)
        e["st"] = fix_state(o.get("st")) if o.get("st") else []
        e["gs"], e["ge"] = o.get("gs", -1), o.get("ge", -1); e["pn"] = o.get("pn", -1); e["wr"] = o.get("wr", [])
        op = t[0]; I = lambda q: int(t[q], 0)
        cs = None
        if op == "dev": e.update(di=I(1), len=I(2), ss=I(3), h=I(4), sc=I(5)); lens[I(1)] = I(2)
        elif op in ("new",): e.update(k=I(1), di=I(2), lab=t[3]); slotdev[I(1)] = I(2)
        elif op == "read": e.update(k=I(1), di=I(2)); slotdev[I(1)] = I(2)
        elif op == "add":
            e.update(k=I(1), t={"p": 0, "l": 1, "x": 2}[t[2]], fs=t[3], s=I(4), e=I(5)); cs = parse_cs(t[6:])
        elif op == "setgeom": e.update(k=I(1), n=I(2), s=I(3), e=I(4)); cs = parse_cs(t[5:])
        elif op in ("max", "maxgeom"): e.update(k=I(1), n=I(2)); cs = parse_cs(t[3:])
        elif op == "rm": e.update(k=I(1), n=I(2))
        elif op in ("delall", "minext", "state", "check", "commit", "commitfull", "destroy"): e.update(k=I(1))
        elif op == "bysec": e.update(k=I(1), s=I(2), r=o.get("r", []))
        elif op == "dup": e.update(k0=I(1), k=I(2)); slotdev[I(2)] = slotdev.get(I(1), -1)
        elif op == "flag": e.update(k=I(1), n=I(2), f=t[3], v=I(4), avail=o.get("avail", -1))
        elif op == "dflag": e.update(k=I(1), f=t[2], v=I(3), avail=o.get("avail", -1))
        elif op in ("name", "typeuuid", "system"): e.update(k=I(1), n=I(2), f=t[3] if len(t) > 3 else "")
        elif op == "typeid": e.update(k=I(1), n=I(2), v=I(3))
        elif op in ("probe", "probeall"): e.update(di=I(1), r2=o.get("tys", [o.get("ty", "-")]))
        elif op in ("jclear", "jlist", "jcount", "digest", "clobber"): e.update(di=I(1), wr=o.get("wr", []))
        elif op == "peek": e.update(di=I(1), s=I(2), hex=o.get("hex", ""))
        elif op == "poke": e.update(di=I(1), s=I(2), hex=t[4])
        elif op in ("xor", "copy", "fail", "badread"): e.update(di=I(1))
        if "nop" in o: e["nop"] = o["nop"]
        if cs is not None:
            n = lens.get(slotdev.get(e["k"], 0), 1)
            if cs[0] == "any": e["cs"] = [0, 1, 0, 1, 0, n - 1, 0, n - 1, 1, n]
            elif cs[0] == "x": e["cs"] = [cs[1], 0, cs[2], 0, cs[1], cs[1], cs[2], cs[2], 1, n]
            else:
                sl, sh, el, eh, so, sg, eo, eg, mn, mx = cs[1:]
                e["cs"] = [so, sg, eo, eg, sl, sh, el, eh, mn, mx]
        if op in ("policy", "uuidctr", "attrs"): continue
        ev.append(e)
    return ev

def blank(op):
    return {"op": op, "k": -1, "di": -1, "k0": -1, "ok": 0, "x": 0, "ans": "", "lab": "", "len": 0, "ss": 0, "h": 0, "sc": 0,
            "t": 0, "s": 0, "e": 0, "n": -1, "pn": -1, "gs": -1, "ge": -1, "cs": [], "r": [], "dg": "", "nw": 0, "st": [],
            "f": "", "v": 0, "avail": -1, "fs": "", "wr": [], "hex": "", "r2": [], "nop": 0}
