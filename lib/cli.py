"""Runs of parted -s for drv_cli, and their outcome as events of spec/ScriptTrace.tla."""
import re, json, struct
LABS = ["gpt", "msdos", "msdos", "gpt", "bsd", "sun", "amiga", "mac", "dvh", "pc98", "loop"]
NAMED = {"amiga", "gpt", "mac", "pc98", "dvh"}
FS = ["ext2", "ext4", "fat16", "fat32", "ntfs", "linux-swap", "xfs", "btrfs", "hfs", "hfs+", "udf", "jfs", "reiserfs"]
GPTFLAGS = ["boot", "esp", "swap", "raid", "lvm", "bios_grub", "prep", "irst", "msftres", "msftdata", "diag", "hidden", "legacy_boot", "no_automount", "chromeos_kernel", "bls_boot", "linux-home"]
UNITS = ["s", "B", "kB", "MB", "kiB", "MiB", "%", "compact"]
ONE = {"k": "kb", "m": "mb", "g": "gb"}
SZ = {"b": 1, "kb": 1000, "mb": 10**6, "gb": 10**9, "kib": 1024, "mib": 1 << 20, "gib": 1 << 30}
pct = lambda s: "".join(c if c.isascii() and c.isalnum() or c in "-_./" else "%%%02x" % b for c in s for b in c.encode())
unpct = lambda s: bytes(int(x[1:], 16) if len(x) == 3 else ord(x) for x in re.findall(r"%..|[^%]", s)).decode()
def split(t):
    """The words of one argument: separated by blanks, ' and " hold them together, \\ in them takes the next character as it is."""
    out, w, q, any_, i = [], "", "", False, 0
    while i < len(t):
        c = t[i]
        if not q and c == " ":
            if w or any_: out.append(w)
            w, any_ = "", False
        elif not q and c in "'\"": q = c
        elif q and c == q: q = ""; any_ = any_ or not w
        elif q and c == "\\" and i + 1 < len(t): i += 1; w += t[i]
        else: w += c
        i += 1
    if w or any_: out.append(w)
    return out
def quote(r, s):
    if s and not re.search(r"[ '\"]", s) and r.random() < .6: return s
    q = r.choice("'\"")
    return q + re.sub(r"([\\%s])" % q, r"\\\1", s) + q
# ---------------------------------------------------------------- generation
class B:      # what the generator believes is there
    def __init__(b, n, ss): b.len, b.ss, b.lab, b.p, b.u = n // ss, ss, "", {}, "compact"
    def gaps(b, logical=False):
        lo, hi = (34, b.len - 34) if b.lab == "gpt" else (1, b.len - 1)
        ps = sorted((s, e) for n, (t, s, e) in b.p.items() if t != 1)
        if logical:
            x = [v for v in b.p.values() if v[0] == 2]
            if not x: return []
            lo, hi = x[0][1] + 2, x[0][2]; ps = sorted((s - 1, e) for n, (t, s, e) in b.p.items() if t == 1)
        out = []
        for s, e in ps:
            if s - 1 >= lo: out.append((lo, s - 1))
            lo = max(lo, e + 1)
        if hi >= lo: out.append((lo, hi))
        return out
def text(r, b, x, end, wild=True):
    """A text for about sector x."""
    y = x * b.ss + (b.ss - 1 if end else 0); m = 1 << 20; z = r.random()
    if z < .25: return "%ds" % x
    if z < .5: return "%dMiB" % ((y + end * b.ss) // m if r.random() < .8 else (y + m - 1) // m)
    if z < .6: return "%d%s" % ((y + 500000) // 10**6, r.choice(["MB", "mb", "M", ""]) if b.u in ("compact", "MB") else "MB")
    if z < .66: return "%dkiB" % (y // 1024)
    if z < .7: return "%dkB" % (y // 1000)
    if z < .74: return "%dB" % (x * b.ss)
    if z < .79: return "%d%%" % min(100, y * 100 // (b.len * b.ss))
    if z < .84: return "%d.5%s" % (y // 10**6, r.choice(["MB", "MiB"]))
    if z < .91: return "-%ds" % (b.len - x)
    if z < .93: return "-%dMiB" % ((b.len * b.ss - y) // m)
    if z < .96: return "%d" % x if b.u == "s" else "%d" % (y // {"compact": 10**6, "B": 1, "kB": 1000, "MB": 10**6, "kiB": 1024, "MiB": m, "%": max(1, b.len * b.ss // 100)}[b.u])
    if not wild: return "%ds" % x
    return r.choice(["0", "1s", "0%", "100%", "-1s", "-0s", "%ds" % b.len, "%ds" % (b.len - 1), "s", "7 7", "99999999s", "-", "1.5s", "0.5s", "0.4MB", "200%"])
def name(r, b):
    n = r.choice([1, 3, 5, 8]) if b.lab != "gpt" else r.choice([0, 1, 4, 8, 20, 35, 36, 37, 60])
    s = "".join(r.choice("abcXYZ019._:;\\\"' ,{}-") for _ in range(n))
    if b.lab == "gpt" and r.random() < .03: s = s[:3] + r.choice("\u00e9\u00df\u4e2d") + s[3:]
    if s[35:36] == " ": s = s[:35] + "." + s[36:]
    return (s.strip() or "a") if b.lab != "gpt" else ("x" if s.strip() == "" and s else s.strip(" ")) if n else ""
def mkpart(r, b, sure):
    ty = "primary" if b.lab != "msdos" else r.choice(["primary"] * 4 + ["extended", "logical", "logical"])
    if b.lab == "dvh" and r.random() < .2: ty = r.choice(["logical", "extended"])
    w = ["mkpart"] + ([ty] if b.lab in ("msdos", "dvh") else []) + ([quote(r, name(r, b))] if b.lab in NAMED and (b.lab != "dvh" or ty == "logical") else [])
    if r.random() < .4: w.append(r.choice(FS) if r.random() < .93 else r.choice(["ext9", "foo"]))
    g = b.gaps(ty == "logical"); lo, hi = r.choice(g) if g and r.random() < .85 else (0, b.len - 1)
    al = 1048576 // b.ss
    z = r.random()
    if z < .45:
        s = (lo + al - 1) // al * al; k = max(0, (hi + 1 - s) // al); e = s + al * r.choice([1, 1, 2, max(1, k)]) - 1
    elif z < .6: s, e = lo, hi
    elif z < .7: s, e = lo + r.choice([-1, 0, 1]), hi + r.choice([-1, 0, 1])
    else: s = r.randint(lo, max(lo, hi)); e = r.randint(s - (r.random() < .1) * 4000, max(s, hi)) if s <= hi else s
    s = max(0, s); e = max(0, e)
    if z < .85 or sure:
        if r.random() < .5: a, c = "%ds" % s, "%ds" % e
        elif s % al == 0 and (e + 1) % al == 0: a, c = "%dMiB" % (s // al), "%dMiB" % ((e + 1) // al)
        else: a, c = text(r, b, s, 0, not sure), text(r, b, e, 1, not sure)
    else: a, c = text(r, b, s, 0), text(r, b, e, 1)
    w += [a, c]
    if s <= e and g and lo <= s and e <= hi and ty != "x":
        n = next(k for k in range(5 if ty == "logical" else 1, 300) if k not in b.p)
        if b.lab == "sun" and n == 3: n = 4
        b.p[n] = (dict(primary=0, logical=1, extended=2)[ty], s, e)
    return w
def command(r, b, sure=False):
    x = r.random(); n = str(r.choice(list(b.p))) if b.p and b.lab != "mac" and r.random() < .9 else str(r.choice([0, 1, 2, 3, 4, 5, 6, 17, 129, 300] if b.lab != "mac" else [2, 2, 3, 3, 4, 99]))
    if not b.lab or x < .05:
        if x < .8: l = r.choice([l for l in LABS if l != "pc98" or b.ss == 512] if x < .04 or not sure else ["gpt", "msdos"]); b.lab, b.p = l, {} if l != "loop" else {1: (0, 0, b.len - 1)}; return ["mklabel", l]
    if x < .43: return mkpart(r, b, sure)
    if x < .5: 
        if n.isdigit() and b.p.pop(int(n), None) and b.lab == "msdos" and int(n) > 4:
            b.p = {k - (k > int(n)): v for k, v in b.p.items()}
        return ["rm", n]
    if x < .57: return ["name", n, quote(r, name(r, b))]
    if x < .68:
        f = r.choice(GPTFLAGS if b.lab == "gpt" else ["boot", "lba", "hidden", "swap", "raid", "lvm", "root", "esp", "diag", "prep", "irst", "bls_boot"]) if r.random() < .95 else r.choice(["nosuch", "1", "on"])
        if r.random() < .25 and b.lab == "gpt": f = r.choice(["hidden", "legacy_boot", "no_automount"])
        return ["toggle", n, f] if r.random() < .3 else ["set", n, f, r.choice(["on", "off", "on", "off", "on", "maybe"] if not sure else ["on", "off"])]
    if x < .72: return [["disk_toggle", r.choice(["pmbr_boot", "pmbr_boot", "boot"])], ["disk_set", "pmbr_boot", r.choice(["on", "off", "x"])]][r.random() < .6]
    if x < .76:
        u = r.choice(UNITS + (["parsec"] if not sure else [])); b.u = u if u != "parsec" else b.u; return ["unit", u]
    if x < .81:
        if b.lab == "gpt": t = r.choice(["0FC63DAF-8483-4772-8E79-3D69D8477DE4", "c12a7328-f81f-11d2-ba4b-00a0c93ec93b", "12345678-9abc-def0-1234-56789abcdef0", "00000000-0000-0000-0000-000000000000", "c12a7328-f81f-11d2-ba4b-00a0c93ec93", "8e"])
        else: t = r.choice(["0x%02x" % r.choice([7, 0x0b, 0x83, 0x82, 0x8e, 0xfd, 0xef, 0x27]), "%x" % r.choice([7, 0x83, 0xa5]), "0", "0x100", "zz", "83h", "-7d", "ffffff83", "0x"])
        return ["type", n, t]
    if x < .88:
        if n.isdigit() and int(n) in b.p:
            t, s, e = b.p[int(n)]; nx = min([v[1] for v in b.p.values() if v[1] > e] + [b.len - (34 if b.lab == "gpt" else 0)])
            y = r.choice([nx - 1, (e + nx) // 2, e, e - 1, nx, min(e + 1, nx - 1), (e + 2048) // 2048 * 2048 - 1]); y = max(y, 0)
            if e <= y < nx: b.p[int(n)] = (t, s, y)
            return ["resizepart", n, "%ds" % y if r.random() < .6 or sure else text(r, b, y, 1)]
        return ["resizepart", n, "%ds" % r.randrange(b.len)]
    if x < .91: return ["align-check", r.choice(["optimal", "minimal", "opt", "min", "opt", "none"] if not sure else ["opt"]), n]
    if x < .98: return ["print"] + (["free"] if r.random() < .4 else [n] if r.random() < .15 else [])
    return ["help", r.choice(["mkpart", "rm", "print", "unit"])] if x < .99 else ["version"]
def spoil(r, w):
    """The same command with something wrong with it."""
    z = r.random(); w = list(w)
    if w[0] == "unit" or z < .35 or len(w) < 2: return w[:1] + ["%s%s" % (w[1], r.choice(["x", ",2", "-3"]))] + w[2:] if len(w) > 1 and w[1][-1:].isdigit() and w[0] not in ("name", "mkpart") else [r.choice(["frobnicate", "m", "check", "rescue2", "mkfs"])] + w[1:]
    if z < .7 and w[0] not in ("set",): return w[:r.choice([-1, -1, 1])] if len(w) > 1 and w[0] not in ("help", "print", "version") else w
    if w[0] == "set": return w[:r.choice([1, 2, 3])]
    return w[:1] + [r.choice(["-1", "1-2", "0x1", "one", "1.5", "99999999999", "1x", ",1"])] + w[2:] if w[0] in ("rm", "name", "toggle", "resizepart", "type") else [w[0] + r.choice(["x", "2"])] + w[1:]
def line(r, cs):
    o = ["-s"] + [["-m"], ["-j"], []][r.randrange(3)]
    if r.random() < .3: o += ["-a", r.choice(["none", "minimal", "optimal", "optimal"])]
    if r.random() < .05: o.append("-f")
    a = []
    for c in cs:
        a.append("|"); k = 0
        while k < len(c):       # some words together in an argument
            j = r.choice([1, 1, 1, 1, 2, len(c)]); a.append(pct(r.choice(["", "", "", " "]) * (j > 1) + " ".join(c[k:k + j]))); k += j
    return "run " + " ".join(o + ["--", "@"] + a)
def history(r):
    ss = r.choice([512] * 5 + [4096, 2048]); n = r.choice([8, 16, 20, 33, 64]) * (1 << 20)
    if r.random() < .3: n += r.choice([1, 3, 7, 100]) * ss
    b = B(n, ss); h = ["img %d %d" % (n, ss)]
    for k in range(r.randint(4, 11)):
        if b.p and b.lab in ("gpt", "msdos") and r.random() < .12:
            t, s, e = r.choice(list(b.p.values()))
            if t != 2 and e < b.len: h.append("poke %d %s" % (s * ss + r.choice([0, 3]), r.choice(["58465342", "4e54465320202020", "0000000000000000"])))
        sure = r.random() < .35
        cs = [command(r, b, sure) for _ in range(r.choice([2, 3, 4, 6]) if sure or r.random() < .15 else 1)]
        if r.random() < .12: cs[-1] = spoil(r, cs[-1])
        if r.random() < .5: cs.append(["print"] + (["free"] if r.random() < .3 else []))
        # a command without all of its arguments takes the words of the next one
        h.append(line(r, cs))
    return h
def script(r, b):
    """A behaviour of spec/MCScript.tla as runs of one or more of its commands; one that must be refused ends a run."""
    h, g, u = ["img %d 512" % (20480 * 512)], [], None
    for j, x in enumerate(b):
        bad = x[:1] == "!"; c = x.lstrip("!").split(" ")
        if not g and u: g.append(["unit", u])
        g.append(c)
        if c[0] == "unit" and not bad: u = c[1]
        if bad or r.random() < .45 or j == len(b) - 1:
            if not bad and r.random() < .7: g.append(["print"])
            t = line(r, g); h.append(t if " -a " in t else t.replace("run ", "run -a none ")); g = []
    return h
def lostfs(r, kind, n, ss):
    """The first bytes of a file system of n sectors (of 512 n a multiple of 8), and where they are in it."""
    if kind == "xfs": return 0, b"XFSB" + struct.pack(">IQ", 4096, n * ss // 4096)
    k = 0 if ss < 4096 and r.random() < .5 else 2      # (blocks of 4096 bytes where sectors are that large)
    b = bytearray(104); struct.pack_into("<II", b, 0, 64, n * ss // (1024 << k)); struct.pack_into("<I", b, 24, k); b[56:58] = b"\x53\xef"; struct.pack_into("<I", b, 32, 8192); struct.pack_into("<I", b, 76, r.choice([0, 1]))
    if kind == "ext3": b[92] = 4
    if kind == "ext4": b[92] = 4; b[96] = 0x40
    return 1024, bytes(b)
def lost(r):
    """File systems that no partition holds (or that one does), and rescue told where to look for them."""
    ss = r.choice([512, 512, 4096, 4096, 4096]); n = (r.choice([8, 20, 33]) if ss == 512 and r.random() < .8 else r.choice([20, 40, 64, 100])) * (1 << 20) + r.choice([0, 0, 7]) * ss
    put = []; b = B(n, ss); g = (4096 // ss) if ss < 4096 else 1; F = 16 * (10**6 // ss); h = ["img %d %d" % (n, ss)]
    b.lab = l = r.choice(["gpt", "gpt", "msdos", "msdos", "sun", "bsd"]); h.append(line(r, [["mklabel", l]]))
    for k in range(r.choice([0, 0, 1, 2, 4])):
        s = r.randrange(64, b.len - 300); e = min(b.len - 100, s + r.choice([100, 2000, b.len // 6]))
        h.append("run -s -a none -- @ | mkpart %s %s %ds %ds" % (dict(gpt="x", msdos=r.choice(["primary"] * 5 + ["extended"])).get(l, ""), r.choice(["", "ext2"]), s, e)); b.p[k + 1] = (0, s, e)
    h[2:] = [" ".join(x.split()) for x in h[2:]]
    for j in range(r.choice([1, 1, 2])):
        a = r.randrange(b.len); c = min(b.len - 1, a + r.choice([0, 100, F // 2, b.len // 3])) if r.random() < .93 else r.randrange(b.len)
        for k in range(r.choice([0, 1, 1, 2, 3, 4]) if j == 0 else r.choice([0, 1])):
            z = r.random(); edge = [v[1] for v in b.p.values()] + [v[2] + 1 for v in b.p.values()]
            s = r.choice([a - F, a - F - 1, a + F - 1, a + F, c, a, a + 1]) if z < .5 else r.choice(edge) + r.choice([0, -1, -g * 20]) if z < .75 and edge else r.randrange(b.len)
            m = g * r.choice([16, 20, 256, 1000]) if r.random() < .7 else max(2 * g, (r.choice([b.len, c + F, c + F] + edge) - s + r.choice([0, 1, g, 9 * g])) // g * g)
            if not 40 <= s < b.len - 40 or m < 16 * g or any(abs(s - y) < 10 for y in put): continue      # (each known by itself)
            put.append(s)
            fs = r.choice(["ext2", "ext2", "ext3", "ext4", "xfs"]); o, y = lostfs(r, fs, m, ss); h.append("poke %d %s %d %d %s" % (s * ss + o, y.hex(), s, m, fs))
        w = ["rescue"] + [text(r, b, x, 0, False) if r.random() < .3 else "%ds" % x for x in (a, c)]
        if r.random() < .06: w = w[:r.choice([1, 2])]
        cs = [w] if r.random() < .6 else [["unit", "s"], w] if r.random() < .5 else [w, ["print"]]
        h.append(line(r, cs))
    return h
# ---------------------------------------------------------------- conversion
COMMANDS = {"mklabel", "mktable", "unit", "help", "version", "print", "mkpart", "rm", "name", "set", "toggle", "disk_set", "disk_toggle", "type", "resizepart", "align-check", "rescue"}
ARITY = {"help": 1, "mklabel": 1, "unit": 1, "rm": 1, "name": 2, "set": 3, "toggle": 2, "disk_set": 2, "disk_toggle": 1, "type": 2, "resizepart": 2, "align-check": 2, "rescue": 2}
def pos(t, u, ss, n):
    m = re.fullmatch(r"(-?)(\d+)(?:\.(5))?\s*([a-zA-Z%]*)\s*", t)
    bad = dict(ok=0, neg=0, n=0, den=1, u="", big=0)
    if not m: return bad
    w = m[4].lower(); w = ONE.get(w, w)
    if w not in ("", "s", "%") and w not in SZ: return bad
    z = {"s": ss, "%": n * ss // 100}.get(w or (u if u != "compact" else "mb")) or SZ.get(w or u, 10**6)
    v, d = (int(m[2] + "5"), 10) if m[3] else (int(m[2]), 1)
    if w == "%" and v > 1000: return dict(bad, ok=1, neg=int(m[1] == "-"), n=1, big=1)
    if len(m[2]) > 17: return bad
    if v * z > 2 * 10**8 * d: return dict(bad, ok=1, neg=int(m[1] == "-"), n=1, big=1)
    return dict(ok=1, neg=int(m[1] == "-"), n=v, den=d, u=w, big=0)
LONG = {"amiga": 31, "pc98": 16, "dvh": 8, "mac": 31}
def word(t, u, ss, n, lab=""):
    f = t.lower()
    i = re.fullmatch(r"(?:0x)?([0-9a-f]{1,2})", f)
    return {"t": t, "ascii": int(t.isascii()), "nm": (t[:16].rstrip() if lab == "pc98" else t[:LONG.get(lab, 36)]).encode().hex(), "num": int(t) if re.fullmatch(r"\d{1,9}", t) else -1, "dg": int(t[:1].isdigit() or t[:1] == "-"),
            "pos": pos(t, u, ss, n), "unit": f if f in ("s", "b", "kb", "mb", "kib", "mib", "%", "compact") else "",
            "uuid": f if re.fullmatch(r"[0-9a-f]{8}(-[0-9a-f]{4}){3}-[0-9a-f]{12}", f) and f.strip("0-") else "", "id": "%02x" % int(i[1], 16) if i else ""}
def commands(w, ss, n, lab):
    """One list of words per command, as the line was written."""
    al, i, out, u = "optimal", 1, [], "compact"
    while w[i] != "--":
        if w[i] == "-a": al = w[i + 1]; i += 1
        i += 1
    groups = []
    for t in w[i + 2:]:
        if t == "|": groups.append([])
        else: groups[-1] += split(unpct(t))
    cut = []
    for j, g in enumerate(groups):
        # words too many are commands of their own; a command without all of its words takes those of the next
        k = ARITY.get(g[0] if g else "", 99)
        if g and g[0] == "print": k = 1 if len(g) > 1 and (g[1] == "free" or g[1][:1].isdigit()) else 0
        for x in groups[j + 1:]:
            while g and k < 99 and len(g) < k + 1 and x and g[0] != "print": g.append(x.pop(0))
        if len(g) > k + 1: cut += [g[:k + 1], g[k + 1:]]
        elif g: cut.append(g)
    groups = cut
    for j, g in enumerate(groups):
        c = "mklabel" if g[0] == "mktable" else g[0]
        if c == "unit" and len(g) > 1 and g[1].lower() in ("s", "b", "kb", "mb", "kib", "mib", "%", "compact"): nu = g[1].lower()
        else: nu = u
        out.append({"c": c if c in COMMANDS else "bad", "al": al, "w": [word(t, u, ss, n, lab) for t in g[1:]], "free": int(c == "print" and g[1:] == ["free"]), "num": int(c == "print" and len(g) == 2 and g[1] != "free")})
        u = nu
        if c == "mklabel" and len(g) == 2: lab = g[1]
    return out
def shown(v, u, ss, n):
    """The text that stands for byte v (only tells whether a word is the default that would be printed)."""
    if u == "compact": u = "mb" if v >= 10**7 else "kb" if v >= 10**4 else "b"; compact = True
    else: compact = False
    nm = {"mb": "MB", "kb": "kB", "b": "B", "kib": "kiB", "mib": "MiB"}.get(u, u)
    z = {"s": ss, "%": n * ss // 100}.get(u) or SZ[u]
    if u == "s" or (u == "b" and not compact): return "%d%s" % (v // z, nm)
    d = v / z; w = d + (.005 if d < 10 else .05 if d < 100 else .5)
    return "%.*f%s" % (2 if w < 10 or u == "%" else 1 if w < 100 else 0, d, nm)
def vague(c, lab):
    """A number with something after it that is no unit, or a part of the name of a file system: what becomes of it is not judged."""
    if c["c"] not in ("mkpart", "resizepart"): return False
    w = [x["t"] for x in c["w"]]
    if c["c"] == "resizepart": return any(vaguepos(t) for t in w[1:])
    k = (lab in ("msdos", "dvh")) + (lab in NAMED and (lab != "dvh" or w[:1] == ["logical"]))
    return any(vaguepos(t) or (not t[:1].isdigit() and t[:1] != "-" and t not in FS + ["ext9", "foo", "primary", "logical", "extended"] + list(COMMANDS)) for t in w[k:])
def vaguepos(t):
    return (t[:1].isdigit() or t[:1] == "-" or "." in t[:1]) and t != "-" and not pos(t, "s", 512, 1 << 20)["ok"]
def num(t):
    m = re.fullmatch(r"(\d+)(?:\.(\d+))?([a-zA-Z%]+)", t.strip())
    if not m: return None
    return {"m": int(m[1] + (m[2] or "")), "den": 10 ** len(m[2] or ""), "u": m[3].lower()}
ROW0 = dict(n=-1, s=None, e=None, z=None, free=0, t=0, fs="", nm="", id="", fl=[])
TY = {"primary": 0, "logical": 1, "extended": 2}
flags = lambda s: [x.strip() for x in s.split(",") if x.strip()]
def fields(l):
    out = [""]
    for x in re.findall(r"\\.|.", l): out += [""] if x == ":" else [out.pop() + x[-1]]
    return out
def machine(t):
    ls = t.split("\n"); h = fields(ls[1][:-1]); bad = 0
    p = dict(mode="machine", bad=0, lab=h[5], ss=int(h[3]), len=num(h[1]), d=flags(h[7]), rows=[])
    for l in ls[2:]:
        if not re.match(r"\d+:", l): break      # what another command says
        if not l.endswith(";"): p["bad"] = 1; continue
        f = fields(l[:-1])
        r = dict(ROW0, n=int(f[0]), s=num(f[1]), e=num(f[2]), z=num(f[3]))
        if f[4] == "free" and len(f) == 5: r.update(free=1, n=-1)
        else:
            r.update(fs=f[4], nm=f[5].encode().hex(), fl=flags(f[6]))
            if len(f) != 7: p["bad"] = 1
        p["rows"].append(r)
    return p
def js(d):
    d = d["disk"]
    p = dict(mode="json", bad=0, lab=d["label"], ss=d["logical-sector-size"], len=num(d["size"]), d=d.get("flags", []), rows=[])
    for x in d["partitions"]:
        p["rows"].append(dict(ROW0, n=x["number"] if x["type"] != "free" else -1, s=num(x["start"]), e=num(x["end"]), z=num(x["size"]), free=int(x["type"] == "free"), t=TY.get(x["type"], -1 if x["type"] != "free" else 4),
                              fs=x.get("filesystem", ""), nm=x.get("name", "").encode().hex(), id=x["type-id"][2:] if "type-id" in x else x.get("type-uuid", ""), fl=x.get("flags", [])))
    return p
def human(t):
    ls = t.split("\n"); g = lambda k: next(l[len(k):].strip() for l in ls if l.startswith(k))
    dl = next(l for l in ls if l.startswith("Disk /"))
    p = dict(mode="human", bad=0, lab=g("Partition Table:"), ss=int(g("Sector size (logical/physical):").split("B/")[0]), len=num(dl.rsplit(": ", 1)[1]), d=flags(g("Disk Flags:")), rows=[])
    k = next(j for j, l in enumerate(ls) if l.startswith("Number")); hd = ls[k]
    cols = [(m.group(0), m.start()) for m in re.finditer(r"File system|\w+", hd)]
    at = {c: (a, cols[j + 1][1] if j + 1 < len(cols) else None) for j, (c, a) in enumerate(cols)}
    for l in ls[k + 1:]:
        if not l.strip(): break
        c = lambda x: l[at[x][0]:at[x][1]].strip() if x in at else ""
        free = int(c("File system") == "Free Space")
        p["rows"].append(dict(ROW0, n=int(c("Number")) if c("Number") else -1, s=num(c("Start")), e=num(c("End")), z=num(c("Size")), free=free, t=TY.get(c("Type"), 0 if not c("Type") else -1),
                              fs="" if free else c("File system"), nm=c("Name").encode().hex(), fl=flags(c("Flags"))))
    return p
def prints(so, mode):
    """What print showed, in order, in the form that was asked for."""
    out = []
    if mode == "-m": parts, f = re.split(r"^(?=BYT;\n)", so, flags=re.M), machine
    elif mode == "-j":
        f = js; d = json.JSONDecoder(); parts, i = [], 0
        for m in re.finditer(r"^\{", so, flags=re.M):
            if m.start() < i: continue
            try: x, i = d.raw_decode(so, m.start())
            except ValueError: x = None; i = len(so)
            parts.append(x)
    else: parts, f = re.split(r"^(?=Model: )", so, flags=re.M), human
    for t in parts:
        if isinstance(t, str) and not re.match(r"BYT;|Model: ", t): continue
        try:
            p = f(t)
            if any(r[k] is None for r in p["rows"] for k in "sez") or p["len"] is None: p = None
        except (ValueError, KeyError, IndexError, StopIteration, TypeError, AttributeError): p = None
        out.append(p or dict(mode=mode, bad=1, lab="", ss=0, len=dict(m=0, den=1, u=""), d=[], rows=[]))
    return out
def table(o): return {k: o[k] for k in ("lab", "len", "ss", "d", "p")}
def conv(h, out, ctx):
    ev, ss, n, lab, gone = [], 512, 0, "", []
    for j, (l, o) in enumerate(zip(h, out)):
        if o["c"] in ("crash", "garbled", "stopped", "skipped"): ev.append({"op": "stop", "ok": 0, "ci": j}); break
        w = l.split(); e = {"op": w[0], "ok": o["ok"], "ci": j, "tab": table(o)}
        if w[0] == "img": ss = int(w[2]); n = int(w[1]) // ss
        if w[0] == "poke" and len(w) > 3: gone = [x for x in gone if x["s"] != int(w[3])] + [{"s": int(w[3]), "n": int(w[4]), "fs": w[5]}]
        if w[0] == "run":
            so, se = (bytes.fromhex(o[k]).decode("latin1") for k in ("so", "se"))
            cs = commands(w, ss, n, lab)
            if "mac" in (lab, *[c["w"][0]["t"] for c in cs if c["c"] == "mklabel" and c["w"]]) and any(c["c"] in ("rm", "set", "toggle", "name", "type", "resizepart") and c["w"] and c["w"][0]["num"] == 1 for c in cs): break   # the partition that the map itself lies in
            if any(x["ascii"] == 0 for c in cs for x in c["w"]): cs = [dict(cs[0], c="bad")] + cs     # the whole line is refused
            l2 = lab; odd = False
            for c in cs:
                odd = odd or vague(c, l2)
                if c["c"] == "mklabel" and c["w"]: l2 = c["w"][0]["t"]
                if c["c"] == "resizepart" and len(c["w"]) > 1:
                    us = [x["w"][0]["unit"] for x in cs[:cs.index(c)] if x["c"] == "unit" and x["w"]] or ["compact"]
                    def isend(ps): return any(p["n"] == c["w"][0]["num"] and us[-1] and c["w"][1]["t"] == shown(p["e"] * ss, us[-1], ss, n) for p in ps)
                    if isend(ev[-1]["tab"]["p"] if ev else []): c["w"] = c["w"][:1]        # the end as it is offered: it stays
                    elif len(cs) > 1 and isend(o["p"]): odd = True                          # or as an earlier command left it
            if odd: break
            e.update(lost=list(gone), rc=o["rc"], hang=o["hang"], same=o["same"], msg=int(bool(so.strip() or se.strip())), cmds=cs, prints=prints(so, "-m" if "-m" in w else "-j" if "-j" in w else ""))
        lab = o["lab"]; ev.append(e)
    return ev
