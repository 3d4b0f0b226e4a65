"""Partitions around the limits of what labels can record, on devices of any size."""
from units import big
U32, I32 = (1 << 32) - 1, (1 << 31) - 1
LABS = ["gpt", "msdos", "msdos", "sun", "mac", "dvh", "bsd", "amiga", "pc98", "pc98", "loop", "atari"]
CYL = ("sun", "amiga", "pc98")
def history(r, lab, n=10):
    ss = r.choice([512, 512, 1024, 2048, 4096]) if lab in ("gpt", "msdos", "mac", "loop", "dvh", "bsd") else 512
    h, s = r.choice([(255, 63), (16, 63), (8, 17), (4, 32), (64, 32), (255, 1), (1, 63)] if lab != "sun" else [(255, 63), (64, 32), (16, 63), (128, 32)]); cyl = h * s
    ML = {"gpt": 1 << 63, "loop": 1 << 63, "atari": I32}.get(lab, U32); MS = {"sun": 128 * U32}.get(lab, ML)
    top = {"atari": I32}.get(lab, r.choice([1 << 33, 3 * U32, 1 << 34, 1 << 40, 1 << 50]))
    if lab == "gpt" and r.random() < .4: top = r.choice([1 << 32, 1 << 41, 1 << 53, 1 << 60, (1 << 62) // ss * 512])
    if lab == "pc98": top = r.choice([65536 * cyl, 65536 * cyl + cyl // 2, 65537 * cyl, 80000 * cyl, 200000 * cyl, 65535 * cyl, 1 << 33])
    if lab == "sun": top = min(r.choice([1 << 33, 129 * U32, 130 * U32, 1 << 40]), cyl * ((1 << 31) - 2))
    if lab in CYL: top = min(top, cyl * ((1 << 31) - 2))
    if (top * ss) >> 62: top = (1 << 62) // ss
    c = ["dev 0 %d %d %d %d 0" % (top, ss, h, s), "new 0 0 " + lab, "limits 0"] + (["dflag 0 cylinder_alignment 0"] if lab == "msdos" else [])
    if lab == "loop": return c + ["commit 0", "read 0 0"]
    lo, hi = 16384, top - 16384
    if lab in CYL: lo, hi = max(2 * cyl, -(-lo // cyl) * cyl), hi // cyl * cyl
    if hi - lo < 4 * cyl: return c + ["commit 0", "read 0 0"]
    marks = [x for x in (MS, ML, U32, I32, 65536 * cyl, 1 << 32) if lo < x < hi] + [hi, lo]
    def al(x): return min(max(lo, x // cyl * cyl if lab in CYL else x), hi)
    def region():
        g = cyl if lab in CYL else 1; j = lambda: g * r.choice([0, 0, 1, 1, -1, -1, 2, -2, r.randrange(-50, 51)])
        y = r.random()
        if y < .35: a = al(r.choice(marks) + j()); ln = r.choice([1, 2, 100, r.randrange(1, 10**6)]) * g
        elif y < .75: a = al(r.choice([lo, lo + 70 * g, r.randrange(lo, hi)])); ln = r.choice([ML, U32, I32, 65536 * cyl - a, ML + 1]) + j()
        elif y < .85: a = al(MS + j()); ln = ML + j()
        else: a = al(r.randrange(lo, hi)); ln = r.randrange(1, max(2, hi - a))
        ln = max(g, -(-ln // g) * g if r.random() < .5 else ln // g * g); b = min(a + ln, hi)
        return (a, b - 1) if b > a else (lo, lo + g - 1)
    x = None
    for _ in range(n):
        y = r.random()
        if y < .55:
            a, b = region(); t = "p"
            if lab == "msdos":
                if x and r.random() < .5: t = "l"; a = min(max(x[0] + 200, r.choice([a, x[0] + 200, x[0] + r.randrange(200, 10**6), U32 + r.randrange(-2, 3)])), hi); b = max(a, min(b, x[1]))
                elif not x and r.random() < .4: t = "x"; x = (a, b)
            c.append("add 0 %s - %d %d %s" % (t, a, b, "exact %d %d" % (a, b) if r.random() < .75 else "any"))
        elif y < .7: c.append("rm 0 %d" % r.choice([1, 1, 2, 3, 5, 6] if lab != "mac" else [2, 3, 4]))
        elif y < .85: a, b = region(); c.append("setgeom 0 %d %d %d exact %d %d" % (r.choice([1, 1, 2, 3] if lab != "mac" else [2, 3]), a, b, a, b))
        elif y < .9: c.append("max 0 %d any" % r.choice([1, 2] if lab != "mac" else [2, 3]))
        else: c += ["commit 0", "read 0 0"]
    c += ["commit 0", "read 0 0"]
    return [y for x in c for y in ([x, "dflag 0 cylinder_alignment 0"] if lab == "msdos" and x[:4] == "read" else [x])]
def conv(h, out, ctx):
    ev, cyl, last, lab, all_ = [], 1, [], "gpt", []
    for j, (line, o) in enumerate(zip(h, out)):
        w = line.split()
        if o["c"] in ("crash", "garbled", "stopped", "skipped"): ev.append({"op": "stop", "ok": 0, "ci": j, "parts": last}); break
        if w[0] == "dev": cyl = int(w[4]) * int(w[5]); continue
        e = {"op": w[0], "ok": o["ok"], "x": o["x"], "ci": j}; st = o.get("st")
        if st: all_ = ["%d %d %d %d" % tuple(q[:4]) for q in st["p"]]         # everything in the table, in order
        if st: last = [[q[0], q[1], big(q[2]), big(q[3])] for q in st["p"] if q[1] in (0, 1, 2) and not (lab == "mac" and q[0] == 1) and not (lab == "dvh" and q[0] == 9)]
        if w[0] == "new":
            lab = w[3]
            if st: last = [[q[0], q[1], big(q[2]), big(q[3])] for q in st["p"] if q[1] in (0, 1, 2) and not (lab == "mac" and q[0] == 1) and not (lab == "dvh" and q[0] == 9)]
            e.update(lab=lab, cyl=big(cyl))
        elif w[0] == "limits":
            if "ms" not in o: ev.append({"op": "stop", "ok": 0, "ci": j, "parts": last}); break
            e.update(ms=big(int(o["ms"])), ml=big(int(o["ml"])), sup=o["sup"])
        elif w[0] == "add": e.update(ty={"p": 0, "l": 1, "x": 2}[w[2]], s=big(int(w[4])), e=big(int(w[5])), exact=int(w[6] == "exact"))
        elif w[0] == "setgeom": e.update(n=int(w[2]), s=big(int(w[3])), e=big(int(w[4])), nop=o.get("nop", 0))
        elif w[0] == "max": e.update(n=int(w[2]), nop=o.get("nop", 0))
        e["parts"] = last; e["all"] = all_; ev.append(e)
        if w[0] == "read" and not o["ok"]: break
    return ev
