"""Histories with injected I/O errors and fetch-all sections; see spec/FaultTrace.tla."""
import json
import hist

def history(r, lab, kind):
    d = hist.rnd_dev(r, lab)
    g = hist.Gen(r, lab, d, {"w": {"add": 10, "setgeom": 2, "rm": 1, "attr": 4, "dflag": .5}, "fs": ("-", "ext2", "fat32", "linux-swap(v1)")})
    g.L += [d.cmd(0), "new 0 0 %s" % lab]
    if lab == "msdos" and r.random() < .8: g.L.append("dflag 0 cylinder_alignment 0")
    if lab in ("msdos", "dvh") and r.random() < .8: g.L.append("add 0 x - %d %d any" % (0 if lab == "dvh" else d.len // 4, d.len - 1))
    for _ in range(r.randrange(3, 10)): g.op(0)
    L = g.L
    L = [x for x in L if not x.startswith(("dup", "read"))]
    ans = lambda: "!" + "".join(r.choice("rrricu") for _ in range(r.randrange(1, 5))) + " "
    def maybe(x):
        y = r.random()
        return "@" + x if y < .2 else (ans() + x) if y < .6 else x
    if kind == "commit":
        L.append("read 1 0")
        for _ in range(10):
            if r.random() < .5: g.L = []; g.op(0); L += [x for x in g.L if not x.startswith(("dup", "read"))]
            w = r.choice("wwwrs")
            L.append("fail 0 %s %d %d" % (w, r.choice([1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 20]), r.random() < .3))
            L.append(maybe(r.choice(["commit 0", "commit 0", "commitfull 0"])))
            L += ["fail 0 %s 0 0" % w, "read 1 0"]
    elif kind == "read":
        L += ["commit 0", "read 1 0"]
        for k in range(1, 15):
            if r.random() < .3:
                a = r.choice([0, 1, 2, d.len - 1, d.len // 4, r.randrange(d.len)])
                L += ["badread 0 %d %d" % (a, a + r.choice([0, 0, 1, 30])), maybe("read 1 0"), "badread 0 0 -1"]
            else:
                L += ["fail 0 r %d %d" % (k, r.random() < .3), maybe("read 1 0"), "fail 0 r 0 0"]
    else:   # anything at all, on damaged contents
        L += ["commit 0"]
        for _ in range(25):
            y = r.random()
            if y < .2: L.append("fail 0 %s %d %d" % (r.choice("rws"), r.choice([1, 2, 3, 5, 9]), r.random() < .2))
            elif y < .4:
                s = r.choice([0, 0, 1, 2, 3, d.len - 1, d.len // 4, r.randrange(d.len)])
                L.append("xor 0 %d %d %d" % (s, r.choice([r.randrange(d.ss), r.randrange(64), r.randrange(446, 512)]), r.randrange(1, 256)))
            elif y < .45: L.append("fail 0 r 0 0")
            elif y < .65: L.append(maybe("read 1 0"))
            elif y < .7: L.append(maybe("probe 0"))
            elif y < .72: L.append(maybe("probeall 0"))
            elif y < .77: L.append(maybe("clobber 0"))
            elif y < .85: L.append(maybe("fsprobe 0 %d %d" % (r.randrange(d.len // 2), r.randrange(1, d.len // 2))))
            elif y < .92: L.append(maybe("commit 1" if r.random() < .5 else "commit 0"))
            else:
                g.L = []; g.op(0); L += [maybe(x) for x in g.L if not x.startswith("read")]
        L.append("fail 0 r 0 0")
    return L

def text(st):
    return json.dumps([st["lab"], st["p"]]) if st else ""
def rtext(st):
    """What a reader of the label must find: amiga numbers its partitions anew, loop holds one only."""
    if not st: return ""
    if st["lab"] == "loop": return "?"
    if st["lab"] == "dvh" and all(p[0] != 9 for p in st["p"]): return "?"      # a missing volume header is added
    return json.dumps([st["lab"], sorted([0 if st["lab"] in ("amiga", "atari") else p[0], p[1] & 3, p[2], p[3]] for p in st["p"] if p[1] in (0, 1, 2) and (p[0] > 0 or p[1] == 2))])

def conv(h, out, ctx):
    ev = []; nc = 0
    for ci, (line, o) in enumerate(zip(h, out)):
        w = line.split()
        if w[0].startswith("!"): w = w[1:]
        op = w[0].lstrip("@")
        if o["c"] in ("crash", "garbled", "stopped", "skipped"): ev.append({"op": "stop", "ok": 0, "ci": ci, "k": -1}); break
        if op in ("fail", "badread", "dev", "policy", "watch", "attrs"): continue
        try: k = int(w[1])
        except (IndexError, ValueError): k = -1
        if op in ("probe", "probeall", "clobber", "fsprobe", "poke", "xor"): k = -1
        ev.append({"op": op, "ci": ci, "k": k, "ok": o["ok"], "x": o["x"], "sect": o["sect"], "inn": o["in"] if o["sect"] else 0, "bal": o["bal"],
                   "lost": o["lost"], "lostw": o["lostw"], "nc": nc, "lab": (o.get("st") or {"lab": ""})["lab"], "io": o["io"], "ign": o["ign"], "can": can(o, op), "nop": o.get("nop", 0), "st": text(o.get("st")), "rt": rtext(o.get("st"))})
        if k == 0 and o.get("st"): nc = o["st"]["nc"]
    return ev
def can(o, op): return 1 if o.get("st") else 0
