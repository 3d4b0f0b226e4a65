"""Translation of drv_dev's output into events of spec/DeviceTrace.tla."""
def conv(h, out, ctx):
    ev = []; bad = {}
    for ci, (line, o) in enumerate(zip(h, out)):
        w = line.split()
        if w[0].startswith("!"): w = w[1:]
        if o["c"] in ("crash", "garbled", "stopped", "skipped"): ev.append({"op": "stop", "ok": 0, "ci": ci}); break
        if w[0] == "bad": bad[int(w[1])] = (int(w[2]), int(w[3]))
        if w[0] in ("inj", "bad", "mode", "gone") or o.get("skip"): continue
        a = [int(v) for v in w[1:]] + [0] * 8
        e = {"op": w[0], "ci": ci, "ok": o["ok"], "ret": o["ret"], "k": o["k"] + 1, "p": o["p"] + 1, "oc": o["d"][0], "ext": o["d"][1], "ro": o["d"][2],
             "x": o["x"], "lost": o["lost"], "ign": o["ign"], "ow": o["ow"], "orr": o["or"], "of": o["of"], "io": o["io"], "list": [v + 1 for v in o["list"]],
             "nfd": o["nfd"], "un": o["un"], "wr": o["wr"], "buf": o["buf"], "cont": o["cont"], "s": 0, "n": 0, "t": 0, "lim": 1 << 20, "b0": 0, "b1": 0, "gr": 1, "off": 0}
        if w[0] in ("read", "write", "check"): e.update(s=a[1], n=a[2], t=a[3])
        if w[0] in ("gread", "gwrite", "gcheck"): e.update(s=a[1] + a[3], n=a[4], t=a[5], lim=a[1] + a[2], off=a[3], gr=a[6] or 1)
        if w[0] in ("check", "gcheck"): e.update(zip(("b0", "b1"), bad.get(o["p"], (0, 0))))
        ev.append(e)
    return ev
