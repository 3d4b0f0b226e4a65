"""FAT file systems laid out on a device, resized; what is on the device afterwards for spec/FatFs.tla."""
import struct
u16 = lambda b, o: b[o] | b[o + 1] << 8
u32 = lambda b, o: int.from_bytes(b[o:o + 4], "little")
EOC = {16: 0xffff, 32: 0x0fffffff}
class Fs: pass

def layout(r, kind, start, big=False):
    """A file system and its files; returns the commands that write it."""
    f = Fs(); f.kind = kind; f.start = start
    f.spc = r.choice([2, 4, 4, 8, 8, 16, 32, 64, 128] if kind == 16 else [8, 8, 16, 16, 32, 64])
    if kind == 16: f.count = r.choice([r.randrange(33000, 65000), r.randrange(33000, 65000), r.randrange(60000, 65521), r.randrange(4200, 33000), 65519, 32800])
    else: f.count = r.choice([r.randrange(65600, 120000), r.randrange(70000, 160000), r.randrange(66000, 72000)])
    f.res = r.choice([1, 1, 1, 2, 8, r.randrange(1, 70)] if kind == 16 else [32, 32, 33, r.randrange(32, 128)])
    f.nf = r.choice([2, 2, 2, 2, 1]); f.rd = r.choice([512, 512, 512, 256, 240, 1024]) if kind == 16 else 0
    esz = kind // 8; need = -(-(f.count + 2) * esz // 512); f.fsz = need + r.choice([0, 0, 1, r.randrange(8)])
    f.rs = f.rd * 32 // 512; f.data = f.res + f.nf * f.fsz + f.rs
    f.total = f.data + f.count * f.spc + r.randrange(f.spc)
    f.count = min((f.total - f.data) // f.spc, f.fsz * 512 // esz - 2)
    f.fat = {0: 0x0ffffff8 if kind == 32 else 0xfff8, 1: EOC[kind]}; f.sec = {}; f.fill = []; f.id = r.randrange(1, 1 << 20)
    f.left = set()
    style = r.choice(["low", "high", "any", "any", "packed", "both"])
    cur = [2]; taken = set()
    def pick():
        while True:
            s = r.choice(["low", "high"]) if style == "both" else style
            if s == "packed": c = cur[0]; cur[0] += 1 if r.random() < .9 else 2
            elif s == "low": c = r.randrange(2, min(f.count, 60) + 2)
            elif s == "high": c = f.count + 1 - r.randrange(min(f.count, 60))
            else: c = r.randrange(2, f.count + 2)
            if len(taken) > 40 and s in ("low", "high"): c = r.randrange(2, f.count + 2)
            if c >= f.count + 2: c = r.randrange(2, f.count + 2)
            if c not in taken: taken.add(c); return c
    def chain(n):
        x = sorted(pick() for _ in range(n)) if r.random() < .6 else [pick() for _ in range(n)]
        for a, b in zip(x, x[1:]): f.fat[a] = b
        if x: f.fat[x[-1]] = r.choice([EOC[kind], EOC[kind] & ~7 | 8])
        return x
    sectors = lambda c: f.data + (c - 2) * f.spc
    budget = [260]
    def entry(nm, at, cl, sz):
        return nm.ljust(11).encode() + bytes([at]) + bytes(r.randrange(256) for _ in range(8)) + struct.pack("<HHHHI", cl >> 16 if kind == 32 else 0, r.randrange(65536), r.randrange(65536), cl & 0xffff, sz)
    n = [0]
    def file(size=None):
        n[0] += 1
        size = r.choice([0, 1, r.randrange(1, 512), 512, f.spc * 512, f.spc * 512 + 1, r.randrange(1, 6 * f.spc * 512), r.randrange(1, 3 * f.spc * 512)]) if size is None else size
        size = min(size, budget[0] * 512); sc = -(-size // 512); budget[0] -= sc; x = chain(-(-sc // f.spc))
        for j, c in enumerate(x):
            k = min(f.spc, sc - j * f.spc); f.fill.append((sectors(c), k, f.id)); f.id += k
        return [("long",)] * (r.random() < .2) + [("e", "F%d" % n[0] if r.random() < .5 else "FILE%d  TXT" % (n[0] % 10) + "", r.choice([0x20, 0x21, 0x06, 0x20]), x[0] if x else 0, size)]
    def bigfile(sects, zero):
        sects = min(sects, (1 << 22) - 2)
        """One that takes a run of clusters, or a few; of zeroes if there is no room to look at every sector."""
        want = min(-(-sects // f.spc), f.count - len(taken) - 100); got = []; n[0] += 1; left = 20
        while len(got) < want and left:
            left -= 1; a = r.choice([2, r.randrange(2, f.count + 2), f.count // 2, max(2, f.count + 2 - want)]); k = r.choice([want, r.randrange(1, want + 1)])
            while a in taken: a += 1
            while len(got) < want and k and a < f.count + 2 and a not in taken: taken.add(a); got.append(a); a += 1; k -= 1
        for a, b in zip(got, got[1:]): f.fat[a] = b
        if not got: return []
        f.fat[got[-1]] = EOC[kind]; size = len(got) * f.spc * 512 - r.randrange(f.spc * 512)
        sc = -(-size // 512)
        if not zero:
            j = 0
            while j < len(got):
                k = j
                while k + 1 < len(got) and got[k + 1] == got[k] + 1: k += 1
                m = min(sc, (k + 1) * f.spc) - j * f.spc; f.fill.append((sectors(got[j]), m, f.id)); f.id += m; j = k + 1
        return [("e", "BIG%d" % n[0], 0x20, got[0], size)]
    def fillup(xs, ents, me, parent, root):
        out = []
        if not root: out += [entry(".", 0x10, me, 0), entry("..", 0x10, parent, 0)]
        for e in ents:
            if e[0] == "long": out.append(b"A" + "longname!!".encode("utf-16le")[:10] + b"\x0f\0" + bytes([r.randrange(256)]) + b"\0x\0y\0z\0w\0\xff\xff\xff\xff"[:12] + b"\0\0" + b"\xff\xff\xff\xff")
            elif e[0] == "gone": out.append(b"\xe5" + entry("ELETED  TXT", 0x20, r.choice([0, r.randrange(2, 60000)]), r.randrange(9999))[1:])
            elif e[0] == "label": out.append(entry("VOLUME", 0x08, 0, 0))
            else: out.append(entry(e[1][:11], e[2], e[3], e[4]))
        raw = b"".join(out); cap = f.rs if root and kind == 16 else f.spc * len(xs)
        raw = raw[:cap * 512] + bytes(max(0, cap * 512 - len(raw)))
        secs = [f.res + f.nf * f.fsz + k for k in range(f.rs)] if root and kind == 16 else [sectors(c) + k for c in xs for k in range(f.spc)]
        for k, s in enumerate(secs): f.sec[s] = raw[512 * k:512 * k + 512]
    def dir(depth, parent, root):
        per = f.spc * 16; xs = [] if root and kind == 16 else chain(r.choice([1, 1, 1, 2, 3]) if f.spc <= 16 else r.choice([1, 1, 2]))
        room = f.rd if root and kind == 16 else per * len(xs)
        me = xs[0] if xs else 0; ents = [("label",)] * (root and r.random() < .5); k = 0
        cnt = r.choice([0, 1, 3, 5, 9] if depth else [2, 5, 9, 14])
        if r.random() < .15: cnt = min(room - 4, 60)
        while k < cnt and len(ents) < room - 6:
            k += 1; y = r.random()
            if y < .25 and depth < 3 and budget[0] > 0 and n[0] < 40:
                n[0] += 1; nm = "DIR%d" % n[0]; c = dir(depth + 1, 0 if root else me, False); ents.append(("e", nm, 0x10, c, 0))
            elif y < .35: ents += [("gone",)] * r.choice([1, 2, 5])
            else: ents += file(None if budget[0] > 0 else 0)
        while len(xs) > 1 and len(ents) <= per * (len(xs) - 1) and r.random() < .8 and len(ents) < room - 6 and len(ents) < 40: ents += file(0)
        if root and big: ents += bigfile(r.choice([3000, 900, 1100, r.randrange(4000)]), 0)
        if root and big == 2: ents += bigfile(int(f.count * f.spc * r.choice([.3, .6, .9, r.random()])), 1)
        fillup(xs, ents, me, parent, root)
        return me
    f.root = dir(0, 0, True)
    for _ in range(r.choice([0, 0, 0, 1, 4])):
        c = pick(); f.fat[c] = 0x0ffffff7 if kind == 32 else 0xfff7
    f.used = [c for c in f.fat if c >= 2]
    # the boot sector, its copy and the count of free clusters
    b = bytearray(512); b[0:3] = b"\xeb\x58\x90"; b[3:11] = r.choice([b"mkfs.fat", b"MSWIN4.1", b"MSDOS5.0"])
    struct.pack_into("<HBHBHHBHHHI", b, 11, 512, f.spc, f.res, f.nf, f.rd, f.total if kind == 16 and f.total < 65536 else 0, 0xf8, f.fsz if kind == 16 else 0, 63, 255, start & 0xffffffff)
    if not u16(b, 19): struct.pack_into("<I", b, 32, f.total)
    if kind == 32:
        struct.pack_into("<IHHIHH", b, 36, f.fsz, 0, 0, f.root, 1, 6); b[64] = 0x80; b[66] = 0x29; struct.pack_into("<I", b, 67, r.randrange(1 << 32)); b[71:90] = b"NO NAME    FAT32   "
    else: b[36] = 0x80; b[38] = 0x29; struct.pack_into("<I", b, 39, r.randrange(1 << 32)); b[43:62] = b"NO NAME    FAT16   "
    b[510:512] = b"\x55\xaa"; f.sec[0] = bytes(b)
    if kind == 32:
        f.sec[6] = bytes(b); i = bytearray(512); struct.pack_into("<I", i, 0, 0x41615252); struct.pack_into("<III", i, 484, 0x61417272, f.count - len(f.used), r.choice([2, 0xffffffff])); i[510:512] = b"\x55\xaa"; f.sec[1] = bytes(i)
    cmds = []
    ft = {}
    for c, v in f.fat.items():
        s, o = divmod(c * esz, 512); ft.setdefault(s, bytearray(512)); struct.pack_into("<H" if kind == 16 else "<I", ft[s], o, v)
    f.ft = ft
    f.cmds = lambda bg: (["zero %d %d" % (start, f.data)] if bg else []) + ["put %d %s" % (start + s, bytes(x).rstrip(b"\0").hex()) for s, x in sorted(f.sec.items()) if bg or any(x)] + \
        ["put %d %s" % (start + f.res + k * f.fsz + s, bytes(x).rstrip(b"\0").hex()) for k in range(f.nf) for s, x in sorted(ft.items())] + ["fill %d %d %d" % (start + s, k, i) for s, k, i in f.fill]
    return f

def history(r, kind=None):
    kind = kind or r.choice([16, 16, 16, 32, 32]); start = r.choice([0, 63, 2048, r.randrange(1, 4000), r.randrange(1, 200000)])
    big = r.choice([0, 0, 0, 1, 1, 2]); f = layout(r, kind, start, big)
    tail = r.choice([0, 1, r.randrange(1000), r.randrange(f.total), f.total]); dl = start + f.total + tail; bg = r.choice([0, 0, r.randrange(1, 99)]) if big < 2 else 0
    ln = min(f.total + r.choice([0, 0, 0, 1, 100]), dl - start)
    c = ["dev %d 255 63 %d" % (dl, bg)] + f.cmds(bg) + ["dump %d %d" % (start, f.total), "open %d %d" % (start, ln), "con"]
    st, L = start, f.total; tot = f.total
    for k in range(r.choice([1, 1, 2])):
        y = r.random(); ans = r.choice([0, 1, 2, 2, 3]); e = st + L
        if y < .2: s, l = st, -1 - (r.random() < .1) * r.randrange(30)
        elif y < .25: s, l = st, -1 - r.randrange(1, 300)
        elif y < .3: s, l = st, L
        elif y < .42: s, l = st, r.randrange(max(1, L // 3), L)
        elif y < .5: s = st; z = r.choice([f.spc, f.spc, f.spc, max(1, f.spc // 2)]); n = r.choice([32760, 32760, 65520]); l = n * z + n // r.choice([64, 128, 256, 100000]) + r.randrange(0, 200) + r.choice([0, z, -z])
        elif y < .55: s = st; es = r.choice([128, 256]); n = r.randrange(1, max(2, (dl - st) // (f.spc * es) + 1)); l = max(1, min(dl - st, n * es * f.spc + 2 * n + r.randrange(-2 * f.spc, 80)))
        elif y < .65: s, l = st, r.randrange(L, dl - st + 1)
        elif y < .75: s = r.randrange(st, min(st + L // 2, st + 5000)); l = r.choice([e - s, dl - s, r.randrange(1, dl - s + 1)])
        elif y < .9: s = r.randrange(max(0, st - 5000), st + 1); l = r.choice([e - s, L, dl - s])
        elif y < .97: s = r.randrange(dl); l = min(dl - s, r.choice([L, L // 2, L + 100]))
        else: s, l = st, r.randrange(1, 3000)
        if l > 0: l = min(l, dl - s)
        c.append("resize %d %d %d" % (s, l, ans)); c.append("look")
        if l > 0 and r.random() < .5: break
        st, L = s, l if l > 0 else L
        if l <= 0: break
    return c

def decode(e, base=0):
    """The fields of a dumped file system: its boot sector, its tables, what each sector of its data holds."""
    sec = {k: (v if v.startswith("C") else bytes.fromhex(v).ljust(512, b"\0")) for k, v in e["sec"]}
    bg = e.get("bg", 0); J = b"\xa5" * 512 if bg else bytes(512)
    b = sec.get(0, J); no = {"ok": 0}
    if not isinstance(b, bytes) or b[510:512] != b"\x55\xaa" or not b[13] or not u16(b, 14) or not b[16] or u16(b, 11) != 512: return no
    rd = u16(b, 17); k32 = rd == 0 and u16(b, 22) == 0
    m = {"ok": 1, "k": 32 if k32 else 16, "spc": b[13], "res": u16(b, 14), "nf": b[16], "rd": rd, "total": u16(b, 19) or u32(b, 32), "fsz": u32(b, 36) if k32 else u16(b, 22), "root": u32(b, 44) if k32 else 0}
    if m["fsz"] > 1 << 20 or m["total"] >= 1 << 31 or m["root"] >= 1 << 28: return no
    esz = 4 if k32 else 2; fats = []
    for t in range(min(m["nf"], 4)):
        raw = []
        for s in range(m["fsz"]):
            x = sec.get(m["res"] + t * m["fsz"] + s, J)
            if isinstance(x, str): x = b"\xa5" * 512
            if any(x): raw += [(s * 512 // esz + j, (int.from_bytes(x[j * esz:j * esz + esz], "little") & 0x0fffffff)) for j in range(512 // esz) if any(x[j * esz:j * esz + esz])]
        fats.append(raw)
    m["same"] = int(all(x == fats[0] for x in fats)); m["id"] = u32(b, 67 if k32 else 39) >> 1
    runs = []
    for c, v in fats[0]:
        if c < 2: continue
        if runs and runs[-1][2] == c and runs[-1][0] + runs[-1][1] == c: runs[-1][1] += 1; runs[-1][2] = v
        else: runs.append([c, 1, v])
    if len(runs) > 3000: return no
    m["fat"] = runs; m["media"] = int(dict(fats[0]).get(0, 0) & 0xff == b[21])
    m["free"] = -1; m["bk"] = 1
    if k32:
        i = sec.get(u16(b, 48), J); bk = sec.get(u16(b, 50), J)
        m["bk"] = int(bk == b); ok = isinstance(i, bytes) and u32(i, 0) == 0x41615252 and u32(i, 484) == 0x61417272 and i[510:512] == b"\x55\xaa"
        m["free"] = (u32(i, 488) if u32(i, 488) < 1 << 31 else -1) if ok else -2
    first = m["res"] + m["nf"] * m["fsz"]; m["ids"] = []; m["dirs"] = []; U = []
    for k, x in sorted((k, x) for k, x in sec.items() if k >= first):
        if isinstance(x, str):
            i = int(x[1:])
            if m["ids"] and m["ids"][-1][0] + m["ids"][-1][1] == k and m["ids"][-1][2] + m["ids"][-1][1] == i: m["ids"][-1][1] += 1
            else: m["ids"].append([k, 1, i])
            continue
        ents = []
        for j in range(0, 512, 32):
            d = x[j:j + 32]
            if d == bytes(32): ents.append({"t": "end"}); break
            if d[0] in (0xe5, 0, 0xf6): continue
            at = d[11]; cl = u16(d, 26) | (u16(d, 20) << 16 if k32 else 0); dk = "long" if at == 15 else "label" if at & 8 else "dir" if at & 16 else "file"
            meta = d.hex() if dk in ("long", "label") else (d[:20] + d[22:26]).hex()
            ents.append({"t": dk, "n": d[:11].decode("latin1").strip() if dk != "long" else "", "c": cl if dk in ("dir", "file") and cl < 1 << 28 else 0, "z": min(u32(d, 28), (1 << 31) - 1) if dk != "long" else 0, "m": meta})
        m["dirs"].append([k, ents])
    return m
def conv(h, out, ctx):
    ev, bg, img = [], 0, None
    # 'look' stands for a dump of where the file system is now and an attempt to open it
    for j, (line, o) in enumerate(zip(h, out)):
        w = line.split(); e = {"op": w[0], "ok": o.get("ok", 0), "ci": j}
        if o["c"] in ("crash", "garbled", "stopped", "skipped"): ev.append({"op": "stop", "ok": 0, "ci": j, "sig": o.get("sig", 0)}); break
        if w[0] == "dev": bg = int(w[4]); continue
        if w[0] in ("put", "zero", "fill"): continue
        if w[0] == "dump": o["bg"] = bg; e.update(st=int(w[1]), ln=int(w[2]), im=decode(o))
        if w[0] == "open": e.update(st=int(w[1]), ln=int(w[2]), fst=o.get("st", -1), fln=o.get("ln", -1), x=len(o["ex"]), ty=o.get("ty", "-"))
        if w[0] == "con": e.update(mn=o.get("min", -1))
        if w[0] == "resize": e.update(st=o["st"], ln=o["ln"], g=o["g"], stray=o["stray"], w=o["w"], x=len(o["ex"]), bug=int(any(q[0] == 5 for q in o["ex"])), mn=int(int(w[2]) < 0), ty=o["ty"], ans=int(w[3]))
        if w[0] == "look":
            o["bg"] = bg; e.update(st=o["st"], ln=o["ln"], im=decode(o), re=o["re"], rx=o["rx"], ty=o["ty"])
        ev.append(e)
    return ev
