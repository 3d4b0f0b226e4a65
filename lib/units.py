"""Texts and positions for drv_unit, and its answers as events of spec/UnitTrace.tla."""
import re
UNITS = ["s", "B", "kB", "MB", "GB", "TB", "compact", "cyl", "chs", "%", "kiB", "MiB", "GiB", "TiB"]
SIZE = {"B": 1, "kB": 10**3, "MB": 10**6, "GB": 10**9, "TB": 10**12, "kiB": 1 << 10, "MiB": 1 << 20, "GiB": 1 << 30, "TiB": 1 << 40}
BY1 = {"s": "s", "b": "B", "k": "kB", "m": "MB", "g": "GB", "t": "TB", "c": "cyl", "%": "%"}
BY2 = {"k": "kiB", "m": "MiB", "g": "GiB", "t": "TiB"}
def big(n):
    r = []
    while n: r.append(n % 10000); n //= 10000
    return r
class Dev:
    def __init__(self, ln, ss, h, s): self.ln, self.ss, self.h, self.s = ln, ss, h, s
    def size(self, u): return {"s": self.ss, "chs": self.ss, "cyl": self.h * self.s * self.ss, "%": self.ln * self.ss // 100}.get(u) or SIZE.get(u, 0)
def unit(c1, c2, sug, df):
    """Only proposes a unit for the quotients; the specification decides, and verifies them."""
    u = BY2.get(c1) if c2 == "i" else BY1.get(c1)
    return u or (sug if sug != "compact" else "MB" if df == "compact" else df)
def number(d, ev, neg, m, k, c1, c2, sug, df):
    z = d.size(unit(c1, c2, sug, df))
    ev.update(op="parse", neg=neg, m=big(m), k=k, c1=c1 or "-", c2=c2 or "-", q=big(m * z // (d.ss * 10**k)), up=big((z + d.ss - 1) // d.ss), lax=0)
def answer(ev, o):
    ev.update(v=big(max(o["v"], 0)) if o["v"] >= 0 else [-1], v2=big(max(o["v2"], 0)) if o["v2"] >= 0 else [-1], ok2=o["ok2"], gn=o["gn"])
    for j in (0, 1): ev["g%d" % j] = big(o["g"][j]) if o["g"][j] >= 0 else [-1]
def printed(ev, t):
    m = re.fullmatch(r"(\d+),(\d+),(\d+)", t)
    if m: ev.update(name="chs", c=big(int(m[1])), hh=big(int(m[2])), s=big(int(m[3])), t=[], p=0); return
    m = re.fullmatch(r"(\d+)(?:\.(\d+))?(.*)", t)
    if not m: ev.update(name="?" + t, t=[], p=0, c=[], hh=[9999, 9999, 9999], s=[]); return
    ev.update(name=m[3], t=big(int(m[1] + (m[2] or ""))), p=len(m[2] or ""), c=[], hh=[9999, 9999, 9999], s=[])
def conv(h, out, ctx):
    ev, d, df = [], None, "compact"
    for j, (line, o) in enumerate(zip(h, out)):
        w = line.split()
        if o["c"] in ("crash", "garbled", "stopped", "skipped"): ev.append({"op": "stop", "ok": 0, "ci": j}); break
        e = {"op": w[0], "ok": o["ok"], "x": o["x"], "ci": j}
        if w[0] == "dev":
            d = Dev(*map(int, w[1:5])); e.update(len=big(d.ln), ss=big(d.ss), h=d.h, s=d.s, hund=big(d.ln * d.ss // 100))
        elif w[0] == "default": df = w[1]; e["u"] = df
        elif w[0] == "size": e.update(u=w[1], v=big(max(o["v"], 0)))
        elif w[0] == "name": e.update(name=o["text"], want=w[3])
        elif w[0] in ("fmt", "fmts", "rt"):
            b = int(w[2]) * (d.ss if w[0] == "fmts" else 1); e.update(op="fmt", u=w[1], b=big(b)); printed(e, o["text"]); e["ok"] = 1
            if w[0] == "rt":
                ev.append(e); t = o["text"]; e = {"ok": o["ok"], "x": o["x"], "ci": j, "u": w[1]}; answer(e, o); m = re.fullmatch(r"(\d+)(?:\.(\d+))?(\D*)", t)
                c = re.fullmatch(r"(\d+),(\d+),(\d+)", t)
                if c: e.update(op="chs", c=big(int(c[1])), hh=big(int(c[2])), s=big(int(c[3])))
                elif m: number(d, e, 0, int(m[1] + (m[2] or "")), len(m[2] or ""), m[3][:1].lower(), m[3][1:2].lower(), w[1], df)
                else: continue
        elif w[0] == "parse":
            e["u"] = w[1]; answer(e, o); k = w[4]
            if k == "no": e.update(op="parse", lax=1)
            elif k == "chs": e.update(op="chs", c=big(int(w[5])), hh=big(int(w[6])), s=big(int(w[7])))
            else: number(d, e, int(w[5]), int(w[6]), int(w[7]), w[8] if w[8] != "-" else "", w[9] if w[9] != "-" else "", df if w[1] == "-" else w[1], df)
        ev.append(e)
    return ev
SUF = [("s", "s", "-"), ("S", "s", "-"), ("B", "b", "-"), ("b", "b", "-"), ("kB", "k", "b"), ("k", "k", "-"), ("K", "k", "-"), ("KB", "k", "b"), ("MB", "m", "b"), ("m", "m", "-"), ("Mb", "m", "b"),
       ("GB", "g", "b"), ("g", "g", "-"), ("TB", "t", "b"), ("T", "t", "-"), ("cyl", "c", "y"), ("c", "c", "-"), ("%", "%", "-"), ("kiB", "k", "i"), ("KIB", "k", "i"), ("ki", "k", "i"), ("MiB", "m", "i"), ("mib", "m", "i"), ("Mi", "m", "i"),
       ("GiB", "g", "i"), ("GI", "g", "i"), ("TiB", "t", "i"), ("tib", "t", "i"), ("", "-", "-"), ("", "-", "-")]
NOT = ["", " ", "MB", "s", "-", "-s", "abc", "kiB", ".", "%", "  GiB", "-MiB", "--5", "+", "x10"]
def spaced(r, t):
    if r.random() < .75: return t
    for _ in range(r.randrange(1, 4)): k = r.randrange(len(t) + 1); t = t[:k] + r.choice([" ", " ", "\t"]) + t[k:]
    return t
def hexed(t): return t.encode().hex() or "-"
def near(r, n):
    return max(0, n + r.choice([0, 0, 1, -1, 2, -2, r.randrange(-40, 41)]))
def dev(r):
    ss = r.choice([512, 512, 512, 1024, 2048, 4096]); x = r.random()
    ln = r.randrange(200, 5000) if x < .3 else r.randrange(2000, 10**6) if x < .5 else r.randrange(10**6, 1 << 33) if x < .9 else r.choice([1 << 21, 1 << 31, 1 << 32, 4194304, 1953125, 25 * 10**6, 1 << 36])
    g = r.choice([(255, 63), (16, 63), (4, 8), (2, 3), (1, 1), (64, 32), (r.randrange(1, 256), r.randrange(1, 64))])
    return "dev %d %d %d %d" % (ln, ss, g[0], g[1])
def history(r, n=60):
    c = [dev(r)]; w = c[0].split(); d = Dev(*map(int, w[1:5])); df = "compact"; by = d.ln * d.ss
    for _ in range(n):
        x = r.random()
        if x < .04: df = r.choice(UNITS); c.append("default " + df)
        elif x < .07: c.append("size " + r.choice(UNITS))
        elif x < .10:
            u = r.choice(UNITS + ["xB", "sectors", "kib ", "%%", "cylinders", "M"]); t = "".join(y.upper() if r.random() < .5 else y.lower() for y in u).strip()
            c.append("name %s # %s" % (t, next((y for y in UNITS if y.lower() == t.lower()), "-")))
        elif x < .45:
            u = r.choice(UNITS + ["-"]); z = d.size(u if u not in ("-", "compact") else df if u == "-" and df != "compact" else r.choice(["kB", "MB", "GB", "TB", "B"]))
            y = r.random()
            if y < .25: b = r.randrange(by)
            elif y < .5: b = near(r, r.choice([1, 10, 100, 1000, r.randrange(1, 3000)]) * z // r.choice([1, 1, 10, 100, 200, 2]))
            elif y < .75: b = near(r, r.choice([9995 * z // 1000, 9995 * z // 100, 10 * z, 100 * z, 999 * z, 1000 * z, 99949 * z // 1000]))
            else: b = near(r, (2 * r.randrange(2000) + 1) * z // r.choice([2, 20, 200]))
            if b >= 1 << 50: b %= by
            k = r.random()
            if k < .4 and u not in ("-", "compact") and b < by: c.append("rt %s %d" % (u, b))
            elif k < .6 and b // d.ss < by: c.append("fmts %s %d" % (u, b // d.ss))
            else: c.append("fmt %s %d" % (u, b))
        elif x < .5: c.append("parse %s %s # no" % (r.choice(["-"] + UNITS), hexed(r.choice(NOT))))
        elif x < .6:
            q = r.randrange(d.ln) if r.random() < .7 else near(r, d.ln); C, H, S = q // (d.h * d.s), q // d.s % d.h, q % d.s; y = r.random()
            if y < .15: H = d.h + r.randrange(3)
            elif y < .3: S = d.s + r.randrange(3)
            elif y < .35: C += 1 << 32
            elif y < .38: H += 1 << 32
            elif y < .4: S += 1 << 32
            c.append("parse %s %s # chs %d %d %d" % (r.choice(["-"] + UNITS), hexed(spaced(r, "%d,%d,%d" % (C, H, S))), C, H, S))
        else:
            sug = r.choice(["-", "-"] + UNITS); sf = r.choice(SUF); u = unit(*[y if y != "-" else "" for y in sf[1:]], df if sug == "-" else sug, df); z = max(d.size(u), 1)
            k = r.choice([0, 0, 0, 1, 1, 2, 3, 6]); neg = int(r.random() < .3); y = r.random(); top = by * 10**k // z
            if y < .35: m = r.randrange(top + 2)
            elif y < .6: m = near(r, top)
            elif y < .7: m = near(r, top + 10**k // 2)
            elif y < .8: m = near(r, r.choice([0, 1, 10**k, 10 * 10**k]))
            elif y < .93: m = near(r, r.randrange(d.ln) * d.ss * 10**k // z)
            else: m = r.choice([10**15, 1 << 53, 1 << 62, 1 << 63, 1 << 64, 10**25, 10 ** 40])
            t = str(m).rjust(k + 1, "0"); t = t if k == 0 else t[:-k] + "." + t[-k:]
            if k == 0 and r.random() < .1: t = "0" * r.randrange(3) + t
            if k and t[0] == "0" and r.random() < .3: t = t[1:]
            if m >= 10**9 and m * z * 4 >= by * 10**k * 5 and k: pass
            c.append("parse %s %s # num %d %d %d %s %s" % (sug, hexed(spaced(r, ("-" if neg else "") + t + sf[0])), neg, m, k, sf[1], sf[2]))
    return c
