"""Histories of tables committed to a device of a simulated kernel, and their events for spec/KernTrace.tla."""
TYPES = {1: "scsi", 2: "ide", 3: "dac960", 4: "cpqarray", 6: "ataraid"}
def kdev(r):
    name, ty = r.choice([("sdx", 1), ("hdx", 2), ("nvme0n1", 1), ("loop7", 1), ("mmcblk0", 1), ("vdx", 1), ("c0d1", 3), ("c0d1", 4), ("md0", 1)])
    ss = 512 if r.random() < .75 else r.choice([1024, 2048, 4096])
    rng = r.choice([256, 256, 256, 16, 8, 5, 4, 2, 1, 0, -1, 64, 33])
    n = r.choice([r.randrange(3000, 9000), r.randrange(9000, 60000)])
    return n, "kdev %s %d %d %d %d %d" % (name, n, ss, ty, rng, r.choice([1, 1, 1, 0]))
LAB = ["msdos", "msdos", "gpt", "gpt", "sun", "mac", "bsd", "amiga", "dvh", "pc98", "loop"]
def history(r, length=16):
    n, L = kdev(r); L = [L]; q = max(1, n // r.choice([8, 12, 20]))
    NUM = [1, 1, 2, 2, 3, 3, 4, 5, 5, 6, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 60, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255]
    def cell(): a = r.randrange(n // q) * q + r.choice([40, 40, 40, 0, 1, 2]); return a, min(n - 1, a + q * r.choice([1, 1, 1, 2, 3, 4]) - r.choice([0, 1, 1, 2]))
    for _ in range(r.choice([0, 1, 3, 6, 10])):
        a, b = cell()
        if b >= a: L.append("kpart %d %d %d %d" % (r.choice(NUM), a, b - a + 1, r.choice([0, 0, 0, 0, 3, 30, 1000000])))
    for _ in range(length):
        x = r.random(); m = r.choice(NUM[:14]); a, b = cell()
        if len(L) < 3 or x < .05 or not any(l.startswith("new") for l in L):
            lab = r.choice(LAB); L.append("new " + lab)
            if lab == "msdos": L.append("dflag cylinder_alignment 0"); e = r.randrange(0, n // 2); L.append("add x %d %d" % (e, n - 1)) if r.random() < .6 else None
            for _ in range(r.choice([1, 2, 4, 9])):
                a, b = cell()
                if b >= a: L.append("add %s %d %d" % (r.choice("pppll" if lab != "gpt" else "p"), a, b))
            if r.random() < .5: L.append("commit " + r.choice(["i", "c"]))
        elif x < .25 and b >= a: L.append("add %s %d %d" % (r.choice("pplll"), a, b))
        elif x < .45 and b >= a: L.append("geom %d %d %d" % (m, a, b))
        elif x < .55: L.append("rm %d" % m)
        elif x < .62: L.append("kuse %d %s" % (m, r.choice(["0", "0", "2", "40", "1000000"])))
        elif x < .70: L.append("mount %d %d" % (r.choice([m, m, m, r.choice(NUM), 0]), r.choice([0, 0, 0, 1, 2, 3])))
        elif x < .76: L += (["mount %d %d" % (m, r.choice([1, 2, 3]))] if r.random() < .6 else []) + ["busy %d" % m, "busy %d" % r.choice([1, 2, 3, 4]), "devbusy"]
        elif x < .78: L.append("devbusy")
        else: L.append(r.choice(["commit ", "commit ", "commit ", "os "]) + r.choice(["c", "i", "ci", "ic", "cc", "iii"]))
    return L + ["commit c"]
def full(r):
    """More partitions than the kernel or a smaller label can take, and a smaller label afterwards."""
    rng = r.choice([256, 64, 33, 17, 16, 9, 8]); n = 20000
    L = ["kdev %s %d 512 1 %d %d" % (r.choice(["sdx", "nvme0n1"]), n, rng, r.choice([1, 1, 0]))]
    lab = r.choice(["gpt", "amiga", "msdos", "sun", "bsd", "dvh", "pc98"]); k = {"gpt": 128, "amiga": 127, "msdos": 60, "sun": 8, "bsd": 8, "dvh": 16, "pc98": 16}[lab]
    w = (n - 700) // (k + 2); L.append("new " + lab)
    if lab == "msdos": L += ["dflag cylinder_alignment 0", "add x 300 %d" % (n - 1)]
    for j in range(r.choice([k, k + 1, min(k, rng), min(k, rng + 1)])): L.append("add %s %d %d" % ("l" if lab == "msdos" else "p", 512 + j * w + 2, 512 + (j + 1) * w - (130 if lab in ("sun", "pc98") else 3)))
    L.append("commit c")
    for _ in range(r.choice([0, 1, 1, 2])): L.append("kuse %d %d" % (r.choice([rng - 1, rng - 2, k, k - 1, 1, 5, 65, 70, 9]), r.choice([20, 1000000])))
    for _ in range(r.choice([0, 2, 5])):
        j = r.choice([k, k - 1, rng - 1, rng, r.randrange(1, k + 1)]); q = max(0, j - (5 if lab == "msdos" else 1))
        L.append(r.choice(["rm %d" % j, "geom %d %d %d" % (j, 512 + q * w + 2, 512 + (q + 1) * w - 60)]))
    L.append("commit " + r.choice(["c", "i"]))
    L += ["new " + r.choice(["loop", "sun", "bsd", "msdos", "gpt", "mac"]), "commit " + r.choice(["c", "i"]), "mount %d 1" % r.choice([1, 9, 40, 70]), "devbusy"]
    return L
def fill(r, b):
    """A behaviour of spec/MCKernel.tla with its device and labels chosen."""
    lab = r.choice(["msdos", "msdos", "gpt", "sun", "bsd", "amiga", "pc98"]); L = []
    for c in b:
        if c == "kdev": c = kdev(r)[1].split(); c[2] = "4000"; c = " ".join(c)
        if c == "new": L += ["new " + lab] + (["dflag cylinder_alignment 0"] if lab == "msdos" else []); lab = r.choice(["msdos", "gpt", "loop", lab]); continue
        L.append(c)
    return L
def conv(h, out, ctx):
    ev = []
    for j, (line, o) in enumerate(zip(h, out)):
        w = line.split()
        e = {"op": w[0], "ok": 1 if o.get("ok") else 0, "ci": j, "nop": o.get("nop", 0), "len": 0, "lim": o.get("lim", 0), "ops": o.get("ops", []), "x": o.get("x", []), "k": o.get("k", []),
             "m": o.get("m", []), "lab": o.get("lab", ""), "ms": o.get("ms", 0), "p": o.get("p", []), "fds": o.get("fds", 0), "last": o.get("last", "-"), "n": 0}
        if o["c"] in ("crash", "garbled", "stopped", "skipped") or o.get("none"): e["op"] = "stop"; ev.append(e); break
        if w[0] == "kdev": e["len"] = int(w[2])
        if w[0] == "busy": e["n"] = int(w[1])
        ev.append(e)
    return ev
