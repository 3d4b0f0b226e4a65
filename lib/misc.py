"""Translation of drv_misc's output into events of spec/ExcTrace.tla and spec/TimerTrace.tla."""
def exc(h, out, ctx):
    ev = []
    inner = hash_text(1, 10)
    for line, o in zip(h, out):
        w = line.split()
        if o["c"] in ("crash", "garbled", "stopped", "skipped"): ev.append({"op": "stop", "ok": 0}); break
        a = [int(x) for x in w[1:]] + [0, 0]
        ev.append({"op": w[0], "ok": 1, "t": a[0], "o": a[1], "m": str(o["m"]), "ret": o["ret"], "pend": o["pend"],
                   "calls": [c[:3] + [str(c[3])] + c[4:] for c in o["calls"]], "inner": str(inner), "ty": o.get("ty", []), "on": o.get("on", [])})
    return ev
def hash_text(kind, n):
    h = 2166136261
    for i in range(n): h = ((h ^ (97 + (i * 7 + kind * 3) % 26)) * 16777619) & 0xffffffff
    return h & 0x3fffffff
def timer(h, out, ctx):
    ev = []
    for line, o in zip(h, out):
        if o["c"] in ("crash", "garbled", "stopped", "skipped"): ev.append({"op": "stop", "ok": 0}); break
        w = line.split(); a = [int(x) for x in w[1:]] + [0, 0, 0]
        ev.append({"op": w[0], "ok": 1, "k": a[0], "a": a[1], "b": a[2], "calls": o["calls"], "tm": o["tm"]})
    return ev
