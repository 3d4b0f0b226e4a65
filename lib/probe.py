"""File systems laid out byte by byte for drv_fs, and its answers as events of spec/ProbeTrace.tla.
An image is a list of (offset from the start of the region, bytes)."""
import struct, zlib
from units import big
le2 = lambda n: struct.pack("<H", n & 0xffff); le4 = lambda n: struct.pack("<I", n & 0xffffffff); le8 = lambda n: struct.pack("<Q", n & (1 << 64) - 1)
be2 = lambda n: struct.pack(">H", n & 0xffff); be4 = lambda n: struct.pack(">I", n & 0xffffffff); be8 = lambda n: struct.pack(">Q", n & (1 << 64) - 1)
def crc(b, seed): return zlib.crc32(b, seed ^ 0xffffffff) ^ 0xffffffff       # as libparted computes it: no inversions
def nilok(g):
    n = struct.unpack("<H", g(8, 2))[0]
    if not 20 <= n <= 1024: return 0
    c = crc(g(0, 16), struct.unpack("<I", g(12, 4))[0]); c = crc(b"\0" * 4, c); c = crc(g(20, n - 20), c)
    return int(c == struct.unpack("<I", g(16, 4))[0])
def nilsb(r):
    n = r.choice([20, 21, 300, 1023, 1024]); b = bytearray(n); b[6:8] = le2(0x3434); b[8:10] = le2(n); b[12:16] = le4(r.getrandbits(32))
    for _ in range(5): 
        if n > 20: b[r.randrange(20, n)] = r.randrange(256)
    c = crc(bytes(b[:16]), struct.unpack("<I", b[12:16])[0]); c = crc(b"\0" * 4, c); c = crc(bytes(b[20:]), c); b[16:20] = le4(c)
    return bytes(b)
AFFS = {"affs%d" % k: b"DOS" + bytes([k]) for k in range(8)}; AFFS["amufs"] = b"muFS"; AFFS.update({"amufs%d" % k: b"muF" + bytes([k]) for k in range(6)})
AMIGA = sorted(AFFS) + ["apfs1", "apfs2", "asfs"]
TYPES = AMIGA + "ext2 ext3 ext4 hfs hfs+ hfsx btrfs f2fs xfs jfs ntfs reiserfs sun-ufs hp-ufs fat16 fat32 linux-swap(v0) linux-swap(v1) swsusp nilfs2 udf".split()
class Reg:
    def __init__(self, ss, st, ln, dl, b=1, res=2): self.ss, self.st, self.ln, self.dl, self.b, self.res = ss, st, ln, dl, b, res
def want(r, g):
    """How many sectors the file system says it has."""
    if getattr(g, "n", 0): return g.n
    return r.choice([g.ln, g.ln, g.ln, max(1, g.ln - r.randrange(1, 9)), max(1, g.ln // 2), 1, g.ln + r.randrange(1, 9), g.dl - g.st, g.dl - g.st + 1, g.dl, 1 << 40])
def total(b, o=0, add=0):
    return (sum(struct.unpack(">%dI" % (len(b) // 4), b)) + add) & 0xffffffff
def image(r, t, g):
    """-> image, offsets that may be damaged (None: any byte), offset and length of the signatures"""
    ss, n = g.ss, want(r, g)
    if t.startswith("ext"):
        k = 2 if getattr(g, "n", 0) else r.randrange(3); b = (1024 << k); cnt = max(1, n * ss // b) & 0xffffffff
        if t == "ext2": c, i, o = r.choice([0, 8, 16]), r.choice([0, 2, 4]), r.choice([0, 1, 2])
        elif t == "ext3": c, i, o = r.choice([4, 12]), r.choice([0, 2, 4]), r.choice([0, 1, 3])
        else: c, i, o = r.choice([0, 4]), *r.choice([(0, 8), (0, 16), (0, 32), (64, 0), (128, 0), (512, 0), (66, 57)])
        sb = bytearray(200); sb[0:4] = le4(64); sb[4:8] = le4(cnt); sb[20:24] = le4(int(b == 1024)); sb[24:28] = le4(k); sb[32:36] = le4(8 * b); sb[40:44] = le4(64); sb[56:58] = le2(0xef53)
        sb[76:80] = le4(r.choice([0, 1, 1])); sb[92:96] = le4(c); sb[96:100] = le4(i); sb[100:104] = le4(o)
        return [(1024, bytes(sb))], [1024 + 56, 1024 + 57, 1024 + 4, 1024 + 6, 1024 + 92, 1024 + 96, 1024 + 100], [(1024 + 56, 2)]
    if t == "btrfs": return [(65536 + 64, b"_BHRfS_M")], None, [(65536 + 64, 8)]
    if t == "f2fs": return [(1024, le4(0xf2f52010))], None, [(1024, 4)]
    if t == "xfs":
        b = 4096 if getattr(g, "n", 0) else r.choice([512, 4096, 4096, 65536]); m = n * ss // b
        return ([(0, b"XFSB" + be4(b) + be8(m))] if r.random() < .7 else [(0, b"BSFX" + le4(b) + le8(m))]), None, [(0, 4)]
    if t == "jfs": return [(32768, b"JFS1" + le4(1) + le8(n * ss // 512) + le4(4096) + le4(0x3000c) + le4(512) + le4(9))], None, [(32768, 4)]
    if t == "ntfs": return [(3, b"NTFS    "), (40, le8(n)), (510, b"\x55\xaa")], None, [(3, 4)]
    if t == "reiserfs":
        o = r.choice([65536, 65536, 8192]); b = 4096 if getattr(g, "n", 0) else r.choice([4096, 4096, 512, 8192]); m = r.choice([b"ReIsErFs", b"ReIsEr2Fs", b"ReIsEr3Fs"])
        im = [(o, le4(n * ss // b)), (o + 44, le2(b)), (o + 52, m)]
        if r.random() < .2: im.append((73728 - o + 52 if o != 65536 else 8192 + 52, m))
        return im, None, [(o + 52, len(m))]
    if t.endswith("ufs") and t[:2] in ("su", "hp"):
        m = r.choice([0x00011954] if t[0] == "s" else [0x00095014, 0x00195612, 0x05231994]); b = 8192 if getattr(g, "n", 0) else r.choice([8192, 1024, 512, 4096]); c = n * ss // b; e = r.choice([be4, le4])
        return [(8192 + 36, e(c)), (8192 + 48, e(b)), (8192 + 1372, e(m))], None, [(8192 + 1372, 4)]
    if t.startswith("fat"):
        l = r.choice([1, 1, 1, 2, 8]); spc = r.choice([1, 2, 4, 64]); res = r.choice([1, 1, 32]); secs = n * ss // 512 // l
        spf = r.choice([1, 9, 250]) if t == "fat16" else 0
        if getattr(g, "n", 0): l, spc, res = 1, 1, 1; secs = n * ss // 512; spf = spf and 9
        b = bytearray(512); b[0:3] = b"\xeb\x58\x90"; b[3:11] = r.choice([b"MSDOS5.0", b"mkdosfs\0", b"SYSLINUX", b"        "]); b[11:13] = le2(512 * l); b[13] = spc; b[14:16] = le2(res); b[16] = r.choice([1, 2, 2, 4]); b[17:19] = le2(r.choice([512, 16, 112]) if t == "fat16" else 0)
        if secs < 65536 and r.random() < .5: b[19:21] = le2(secs)
        else: b[32:36] = le4(secs)
        b[21] = 0xf8; b[22:24] = le2(spf); b[24:26] = le2(63); b[26:28] = le2(255); b[510:512] = b"\x55\xaa"
        return [(0, bytes(b))], [11, 12, 13, 14, 16, 17, 18, 19, 20, 22, 32, 34, 510, 511], [(510, 2)]
    if t == "linux-swap(v0)": return [(4086, b"SWAP-SPACE")], None, [(4086, 10)]
    if t == "linux-swap(v1)": return [(4086, b"SWAPSPACE2"), (1024, le4(1) + le4(r.choice([n * ss // 4096, max(0, n * ss // 4096 - 1)])))], None, [(4086, 10)]
    if t == "swsusp": return [(4086, b"S1SUSPEND"), (1024, le4(1) + le4(n * ss // 4096))], None, [(4086, 9)]
    if t == "nilfs2":
        k = ss // 512; o = ((g.ln * k // 8 - 1) * 8) // k * ss; a, b = nilsb(r), nilsb(r)
        return ([(1024, a)] + ([(o, b)] if o > 0 else [])), None, [(1030, 2)] + ([(o + 6, 2)] if o > 0 else [])
    if t == "udf":
        z = 2048 if getattr(g, "n", 0) else r.choice([2048, 2048, 2048, 4096, 8192, 16384, 32768]); za = z if z != 2048 else r.choice([512, 1024, 2048, 2048]); seq = [r.choice([b"BEA01", b"CD001", b"BOOT2", b"CDW02"]) for _ in range(r.randrange(0, 3))] + [r.choice([b"NSR02", b"NSR03"])] + [b"TEA01"]
        nb = g.ln * ss // za; k = 256 if getattr(g, "n", 0) else r.choice([256, 256, nb - 257, nb - 1, 512]); im = [(32768 + j * z + 1, w) for j, w in enumerate(seq)]
        if k > 0 and k * za < g.ln * ss + 4096: im.append((k * za, le2(2) + b"\0" * 10 + le4(k)))
        return im, None, [(32768 + (len(seq) - 2) * z + 1, 5)]
    if t in ("hfs", "hfs+", "hfsx"):
        if t == "hfs" or (t == "hfs+" or not getattr(g, "n", 0)) and r.random() < .3:
            b = r.choice([1, 2, 8]); s0 = r.choice([4, 5, 16]); tb = max(1, min((min(n, g.ln, 60000) - s0 - 2) // b, 60000)); e = s0 + tb * b + r.randrange(b)
            im = [(1024, b"BD"), (1024 + 18, be2(tb)), (1024 + 20, be4(b * 512)), (1024 + 28, be2(s0)), (e * 512, b"BD")]
            if t != "hfs": im += [(1024 + 124, r.choice([b"H+", b"H+", b"H+", b"HX"]))]
            return im, [1024, 1025, e * 512, e * 512 + 1, 1024 + 124], [(1024, 2), (e * 512, 2)]
        b = r.choice([1, 2, 8]); nb = max(1, min(n, g.ln, 60000) // b - 1); m = (nb + 1) * b - 2; w = b"H+" if t == "hfs+" else b"HX"
        e = r.choice([m - 1, m - b, m - 2 * b + 2, max((nb - 1) * b - 1, 3)]); e = m - 1 if getattr(g, "n", 0) else e if e >= 3 else 4
        return [(1024, w), (1024 + 40, be4(b * 512)), (1024 + 44, be4(nb)), (e * 512, w)], [1024, 1025, e * 512, e * 512 + 1], [(1024, 2), (e * 512, 2)]
    if t in AFFS:
        res = g.res or 1; pos = g.ln // g.b - res - 1; root = (int(pos / 2) + res) * g.b
        b = bytearray(512 * g.b); b[3] = 2; b[-1] = 1
        for _ in range(6): b[r.randrange(24, 512 * g.b - 40)] = r.randrange(256)
        b[20:24] = be4(-total(bytes(b)))
        return [(0, AFFS[t])] + ([(root * 512, bytes(b))] if root > 0 else []), None, [(0, 4)] + ([(root * 512, 4), (root * 512 + 512 * g.b - 4, 4)] if root > 0 else [])
    if t in ("apfs1", "apfs2"):
        w = bytes([80, 70, 49, 1]) if t == "apfs1" else bytes([80, 70, 49, 2])
        return [(0, w), (g.res * g.b * 512, w)] if g.res < 1 << 20 else [(0, w)], None, [(0, 4), (g.res * g.b * 512, 4)]
    if t == "asfs":
        which = (1,) if getattr(g, "n", 0) else r.choice([(0,), (1,), (0, 1)]); im = [(0, b"SFS\0")]
        for k in (0, 1):
            s = 0 if k == 0 else g.ln - g.b - g.ln % g.b
            if k not in which or s < 0: continue
            b = bytearray(512 * g.b); b[0:4] = b"SFS\0"; b[8:12] = be4(s // g.b); b[32:40] = be8(g.st * 512); b[40:48] = be8((g.st + g.ln) * 512)
            for _ in range(6): b[r.randrange(60, 512 * g.b)] = r.randrange(256)
            b[4:8] = be4(-total(bytes(b), add=1)); im = [x for x in im if x[0] != s * 512] + [(s * 512, bytes(b))]
        return im, None, [(im[-1][0], 4), (0, 4)]
    raise ValueError(t)
def rdb(r, g, cyl, surf):
    """Amiga blocks at the start of the device, that describe the region among others."""
    at = r.choice([0, 0, 1, 2, 15]); n = r.randrange(1, 4); where = r.sample(range(16, 40), n); b = bytearray(512); b[0:4] = b"RDSK"; b[4:8] = be4(64); b[28:32] = be4(where[0]); b[8:12] = be4(-total(bytes(b[:256])))
    out = [(at * 512, bytes(b))]; mine = r.randrange(n)
    for j, p in enumerate(where):
        q = bytearray(256); q[0:4] = b"PART"; q[4:8] = be4(64); x = r.random()
        q[16:20] = be4(where[j + 1] if j + 1 < n else 0xffffffff if x < .8 else where[0] if x < .9 else p)
        sz = r.choice([(128 * g.b, 1), (128, g.b)]) if g.b >= 0 else r.choice([(0, 1), (127, 1), (128, 129), (128 << 20, 1), (0x1000000, 128)])
        lo, hi = (g.st // cyl, (g.st + g.ln) // cyl - 1) if j == mine else (g.st // cyl + 1, g.st // cyl + 3)
        for o, v in ((132, sz[0]), (144, sz[1]), (140, surf), (148, cyl // surf), (152, g.res), (164, lo), (168, hi)): q[o:o + 4] = be4(v)
        q[8:12] = be4(-total(bytes(q))); out.append((p * 512, bytes(q)))
    return out
def puts(base, im): return ["put %d %s" % (base + o, b.hex()) for o, b in im if base + o >= 0]
def damage(r, im, safe):
    offs = safe or [o + j for o, b in im for j in range(len(b))]
    o = r.choice(offs); return (o, bytes([r.choice([0, 255, 1, 128, r.randrange(256)])]))
def history(r, t):
    c = []; x = r.random(); ss = 512 if t in AMIGA or t.startswith("hfs") else r.choice([512, 512, 512, 1024, 2048, 4096, 4096, 8192 if x < .3 else 512])
    if t in AMIGA and r.random() < .6:
        surf = r.choice([1, 2, 4]); cyl = surf * r.choice([1, 8, 11, 32]); b = r.choice([1, 1, 1, 2, 2, 4, -1]); res = r.choice([2, 2, 2, 1, 0, 3, 16, 5000, 1 << 31])
        st = cyl * (40 // cyl + r.randrange(1, 50)); ln = cyl * r.randrange(1, 200); dl = st + ln + r.randrange(0, 500); g = Reg(ss, st, ln, dl, b, res); c.append("dev %d %d 16 63" % (dl, ss)); desc = rdb(r, g, cyl, surf)
        if r.random() < .15: desc.pop(r.randrange(len(desc)))
        c += puts(0, desc); g.b = max(b, 1) if r.random() < .9 else 1
        if g.res > 4000: g.res = r.choice([1, 2])
        hexact = True
    else:
        small = r.random() < .25; ln = r.randrange(1, 40) if small else r.choice([r.randrange(40, 3000), 2880, r.randrange(3000, 100000)]) * 512 // min(ss, 4096); st = r.choice([0, 0, 1, 2, 63, 64, r.randrange(5000)]); dl = st + ln + r.choice([0, 0, 1, 7, r.randrange(1, 5000)])
        ln = max(ln, 1)
        if r.random() < .1 and not small: st += 1 << 27; dl += 1 << 27
        if t == "fat16": dl += 600000 * 512 // ss
        dl = max(dl, st + ln); g = Reg(ss, st, ln, dl); c.append("dev %d %d 16 63" % (dl, ss)); hexact = False
    if r.random() < .03: c.append("types")
    base = g.st * ss; ims = []
    def layout(u, at):
        im, safe, sig = image(r, u, g); c.extend(puts(at, im)); ims.append((im, safe, sig)); return im, safe, sig
    if r.random() < .12 and not t.startswith(("hfs", "ext")):     # noise first, and the file system over it
        c.append("put %d %s" % (base, r.getrandbits(8 * 2048).to_bytes(2048, "big").hex()))
        c.append("put %d 000000000000" % (base + 1024)); c.append("put %d 0000" % (base + 1080)); c.append("put %d 0000" % (base + 510))
    if r.random() < .15: layout(r.choice(TYPES if ss == 512 else [u for u in TYPES if u not in AMIGA and u[:3] != "hfs"]), base)
    im, safe, sig = layout(t, base); y = r.random(); P = lambda a=0, b=0: "probe %d %d" % (max(0, g.st + a), max(1, g.ln + b))
    c.append(P())
    if t == "fat16":  # as many clusters as tell the one type from the other
        b = im[0][1]; l2 = lambda o: b[o] + 256 * b[o + 1]; l = l2(11) // 512
        x = l2(14) * l + 2 * l2(22) * l + l2(17) // 16
        for k in r.sample([4084, 4085, 4086, 4087, 4088, 65524, 65525], 2):
            m = (x + k * b[13] * l) * 512 // ss + r.choice([0, 0, 1, -1])
            if 0 < m and g.st + m <= g.dl: c.append("probe %d %d" % (g.st, m))
    if y < .45:       # damage, and what it was again
        for _ in range(r.randrange(1, 4)):
            if r.random() < .6 and sig: o, k = r.choice(sig); d = (o + r.randrange(k), bytes([r.randrange(256)]))
            else: d = damage(r, im, safe)
            if safe and d[0] not in safe and not any(o <= d[0] < o + k for o, k in sig): continue
            c += puts(base, [d]) + [P()]
            if r.random() < .5: c += puts(base, im) + [P()]
    elif y < .6:      # regions that begin elsewhere, or end too soon
        for _ in range(3):
            a = r.choice([0, 0, 1, -1, 2, 8]); e = r.choice([0, -1, 1, -2, -g.ln // 2, 1 - g.ln, 2 - g.ln, 5 - g.ln, 8 - g.ln, 20 - g.ln])
            if g.st + a < 0 or g.ln + e < 1 or g.st + a + g.ln + e > g.dl: continue
            c.append(P(a, e))
    elif y < .7:      # one that ends where its last signature does
        o, k = r.choice(sig); last = (o + k - 1) // ss
        for e in (last, last + 1):
            if 1 <= e and g.st + e <= g.dl: c.append("probe %d %d" % (g.st, e))
    elif y < .8 and t.startswith("ext"):   # a copy of the superblock
        c += puts(base, [(1024 + 76, le4(1)), (1024 + 90, le2(r.choice([1, 2, 0xffff, r.randrange(65536)])))])
        if r.random() < .4: c += puts(base, [(1024 + r.choice([32, 24, 40]), le4(r.choice([0, 0xffffffff, 31, 63, 1 << 31, 40])))])
        if r.random() < .6: c.append(P())
        else: c.append(P())
    elif y < .95:     # another over it
        layout(r.choice(TYPES if ss == 512 else [u for u in TYPES if u not in AMIGA and u[:3] != "hfs"]), base); c.append(P())
    return c
def runs(img, lo, hi, cap=1 << 30):
    out = []
    for o in sorted(k for k in img if lo <= k < hi and img[k] and k - lo < cap):
        if out and out[-1][0] + len(out[-1][1]) == o - lo: out[-1][1].append(img[o])
        else: out.append([o - lo, [img[o]]])
    return out
def region(img, ss, st, ln, dl):
    a, z = st * ss, (st + ln) * ss
    g = lambda base: lambda x, n: bytes(img.get(base + x + i, 0) for i in range(n))
    n2 = ((ln * (ss // 512) // 8 - 1) * 8) // (ss // 512) * ss
    log = img.get(a + 1024 + 24, 0) > 16 or any(img.get(a + 1024 + k, 0) for k in (25, 26, 27))
    return dict(ss=ss, st=st, ln=ln, dl=dl, img=runs(img, a, z), rdb=runs(img, 0, 1 << 20), far=runs(img, a, dl * ss),
                nil=[nilok(g(a + 1024)), nilok(g(a + n2)) if n2 > 0 else 0], odd=int(log))
def samples(r, ss):
    """A file system of every kind for spec/MCProbe.tla."""
    out = []
    for t in TYPES:
        if ss != 512 and (t in AMIGA or t.startswith("hfs")): continue
        g = Reg(ss, 8, 12000 * 512 // ss, 13000 * 512 // ss); g.n = g.ln
        while True:
            im, _, sig = image(r, t, g); img = {g.st * ss + o + j: v for o, b in im for j, v in enumerate(b)}
            R = region(img, ss, g.st, g.ln, g.dl); keep = {o + j for o, k in sig for j in range(k)}
            # the sums of amiga blocks: damage to a signature is not made up for elsewhere
            if len(im) > 1 and t.startswith(("reiser", "udf")) and sum(bytes(b)[:5] in (b"ReIsE", b"NSR02", b"NSR03") for _, b in im) > 1: continue
            break
        out.append({"t": t, "R": R, "sig": sorted(keep)})
    return out
def conv(h, out, ctx):
    ev, img, ss, dl = [], {}, 512, 0
    for j, (line, o) in enumerate(zip(h, out)):
        w = line.split()
        if o["c"] in ("crash", "garbled", "stopped", "skipped"): ev.append({"op": "stop", "ok": 0, "ci": j}); break
        e = {"op": w[0], "ok": o["ok"], "ci": j}
        if w[0] == "dev": dl, ss = int(w[1]), int(w[2]); continue
        if w[0] == "put":
            for k, v in enumerate(bytes.fromhex(w[2])):
                if int(w[1]) + k < dl * ss: img[int(w[1]) + k] = v
            continue
        if w[0] == "types": e["t"] = o["t"]
        if w[0] == "probe":
            st, ln = int(w[1]), int(w[2]); a, z = st * ss, (st + ln) * ss
            if not o["ok"]: ev.append({"op": "stop", "ok": 0, "ci": j}); break
            e.update(region(img, ss, st, ln, dl), found=[[t, big(s), big(l)] for t, s, l in o["found"]], best=o["best"], out=[x[0] for x in o["out"]], w=o["w"], bx=o["bx"], bal=o["bal"])
        ev.append(e)
    return ev
