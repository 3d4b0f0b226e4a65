"""Histories of labels committed over each other, and their events for spec/RelabelTrace.tla."""
ALL = ["gpt", "msdos", "sun", "mac", "dvh", "bsd", "amiga", "pc98", "loop", "atari"]
# what marks a label (or a file system) as one, put on the device as a leftover: sector, offset, bytes
MARKS = [(0, 0, "c9c2d4c1"), (0, 508, "dabe"), (0, 510, "55aa"), (0, 0, "4552"), (1, 0, "504d0000"), (1, 0, "4546492050415254"), (0, 0, "0be5a941"), (0, 64, "57455682"), (1, 0, "57455682"),
         (0, 0, "5244534b"), (2, 0, "5244534b"), (15, 0, "5244534b"), (0, 4, "49504c31"), (0, 0, b"GNU Parted Loopback 0".hex()), (0, 450, "ee"), (0, 450, "05"), (2, 56, "53ef"),
         (0, 3, "4e54465320202020"), (0, 54, "4641543136202020"), (0, 82, "4641543332202020"), (0, 0, "58465342"), (7, 502, "53574150535041434532"), (2, 0, "482b"), (2, 0, "4244")]
FSFAR = [(128, 64, b"_BHRfS_M".hex()), (64, 1, b"BEA01".hex())]
def dev(r, labs):
    ss = 512 if r.random() < .75 else r.choice([1024, 2048, 4096])
    h, s = r.choice([(4, 8), (16, 63), (255, 63), (8, 17)])
    n = r.choice([r.randrange(700, 3000), r.randrange(3000, 20000), h * s * r.randrange(3, 40) + r.choice([0, 0, 5])])
    return "%d %d %d %d %d" % (max(n, 700, 3 * h * s), ss, h, s, r.choice([0, r.randrange(1, 10 ** 6)]))
def part(r, n):
    a = r.randrange(n * 3 // 4); b = min(n - 1, a + r.randrange(1, max(2, n // 4)))
    return "add %%d p %s %d %d any" % (r.choice(["-", "-", "ext2", "fat16", "linux-swap(v1)"]), a, b)
def history(r, first=None, length=8):
    c, cur = [], None
    d = dev(r, ALL); n = int(d.split()[0]); c.append("dev 0 " + d); seq = list(first or [])
    if r.random() < .5: c += ["poke 0 %d %d %s" % r.choice(MARKS) for _ in range(r.randrange(1, 6)) if True]
    for step in range(length):
        lab = seq.pop(0) if seq else r.choice(ALL); x = r.random()
        if x < .1: c += ["clobber 0", "probe 0", "probeall 0"]; continue
        if x < .17: c += ["poke 0 %d %d %s" % r.choice(MARKS) for _ in range(r.randrange(1, 4))]
        if x < .2: c += ["new 3 0 aix", "probe 0", "commit 3", "probe 0"]
        if r.random() < .15: c += ["new 1 0 %s" % r.choice(ALL), "probe 0", "state 1"]          # created and thrown away
        if r.random() < .1: c += ["new 2 0 %s" % lab, "dup 2 0", "commit 0"]
        else: c += ["new 0 0 %s" % lab] + [part(r, n) % 0 for _ in range(r.choice([0, 0, 1, 3]))] + ["commit 0"]
        c += ["probe 0", "probeall 0"]
        if r.random() < .6: c += ["read 0 0"] + ([part(r, n) % 0, "commit 0", "probe 0", "read 0 0"] if r.random() < .5 else [])
    return c
def conv(h, out, ctx):
    ev, d0 = [], {}
    for j, (line, o) in enumerate(zip(h, out)):
        w = line.split()
        e = {"op": w[0], "ok": 1 if o.get("ok") else 0, "ci": j, "k": 0, "lab": "", "dg": o.get("dg", ""), "ty": o.get("ty", ""), "tys": o.get("tys", []), "ps": [], "k0": 0}
        if o["c"] in ("crash", "garbled", "stopped", "skipped"): e["op"] = "stop"; ev.append(e); break
        if w[0] == "dev": e["k"] = int(w[1]); e["ss"], e["len"] = int(w[3]), int(w[2])
        if w[0] in ("new", "read", "add", "commit", "state", "dup"): e["k"] = int(w[1])
        if w[0] == "new": e["lab"] = w[3]
        if w[0] == "dup": e["k0"], e["k"] = int(w[1]), int(w[2])
        st = o.get("st")
        if st: e["lab"] = st.get("lab", e["lab"]); e["ps"] = [q[1:4] for q in st["p"] if q[1] in (0, 1, 2)]; e["ps"].sort(key=lambda q: (q[1:], q[0]))
        ev.append(e)
    return ev
