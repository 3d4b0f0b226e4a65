"""Commands for drv_cs and the translation of its output into events of spec/ConstraintTrace.tla."""
import itertools
ARGS = {"al": "o g lo hi a b", "meet": "o g o2 g2", "geo": "a b lo hi", "rnd": "s g", "gcd": "s g"}
def conv(h, out, ctx):
    ev, ln = [], 10
    for j, (line, o) in enumerate(zip(h, out)):
        w = line.split(); a = [int(x, 0) for x in w[1:]]
        if o["c"] in ("crash", "garbled", "stopped", "skipped"): ev.append({"op": "stop", "ok": 0, "ci": j}); break
        if w[0] == "len": ln = a[0]
        if w[0] in ("len", "scale"): continue
        e = {"op": w[0], "ok": 1, "ci": j, "x": o["x"]}
        for k in ("r", "al", "meet", "over", "inside", "eq", "dup", "other", "map", "sec", "ss", "se", "con", "sol", "near", "max"):
            if k in o: e[k] = o[k]
        if w[0] in ARGS: e.update(zip(ARGS[w[0]].split(), a)); e["ln"] = o.get("len", 1)
        else: e.update(slot=a[0], v=a[1:], len=ln, lo0=o["lo"], n=o["n"])
        ev.append(e)
    return ev
def aligns(gmax): return [(o, g) for g in range(0, gmax + 1) for o in (range(g) if g else range(-2, 8))] + [(0, -1)]
def small(r, gmax, n):
    """Every alignment with a grain up to gmax, every pair, every range and pair of ranges in n sectors."""
    A = aligns(gmax)
    R = [(a, b) for a in range(n) for b in range(a, n)]
    c = ["al %d %d 1 0 %d %d" % (o, g, g, n + g + 4) for o, g in A] + ["al %d %d %d %d -2 %d" % (o, g, lo, hi, n + 2) for o, g in A for lo, hi in R]
    c += ["meet %d %d %d %d" % (x + y) for x in A for y in A]
    c += ["geo %d %d %d %d" % (x + y) for x in R for y in R]
    c += ["rnd %d %d" % (s, g) for s in range(-12, 13) for g in range(1, gmax + 3)] + ["gcd %d %d" % (a, b) for a in range(26) for b in range(26)]
    return c
# what the driver multiplies by and adds: the same cases near the ends of what a sector number can be
SCALES = [(1, 1000), (8, 0), (2048, 0), (2048, 34), (1 << 21, 12345), (1 << 31, 7), ((1 << 31) + 11, 0), (1 << 32, 1 << 33), (1 << 40, 0), (3 * (1 << 30), 1 << 20), (255 * 63 * 65536, 63)]
def scaled(r, n):
    """Random cases at scale: no reads of a region are made, so they can lie anywhere."""
    K, B = r.choice(SCALES) if r.random() < .8 else (r.randrange(1, 1 << r.randrange(1, 41)), r.randrange(1 << r.randrange(1, 50)))
    K = max(K, 1); c = ["scale %d %d" % (K, B)]
    def g(): return r.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 24, 30, 36, 64, 100, 144])
    def rg(): a = r.randrange(40); return a, a + r.randrange(60)
    for _ in range(n):
        x = r.random()
        if x < .35: lo, hi = rg() if r.random() < .9 else (1, 0); a = r.randrange(60); gg = g(); c.append("al %d %d %d %d %d %d" % (r.randrange(100), gg, lo, hi, a - 4, a + 8))
        elif x < .7: 
            o, gg, gh = r.randrange(150), g(), g(); o2 = o + gg * r.randrange(20) - gh * r.randrange(20) if r.random() < .6 else r.randrange(150)
            c.append("meet %d %d %d %d" % (o, gg, abs(o2) if gh == 0 else o2 % gh, gh))
        elif x < .9: c.append("geo %d %d %d %d" % (rg() + rg()))
        elif x < .95: c.append("rnd %d %d" % (r.randrange(-100, 300), r.randrange(1, 40)))
        elif B == 0 or x < .97: c.append("gcd %d %d" % (r.randrange(300), r.randrange(300)))
    return c
def cons(r, n):
    """A history of constraints: made in every way there is, met, and solved for every region."""
    L = r.choice([6, 8, 9, 10, 11, 12]); c = ["len %d" % L]; made = []
    def al():
        g = r.choice([1, 1, 1, 2, 2, 3, 4, 5, 6, 0]); return r.randrange(max(g, 1)) if g else r.randrange(L), g
    def rg(): a, b = sorted((r.randrange(L), r.randrange(L))); return a, b
    def size():
        a, b = r.randrange(1, L + 1), r.randrange(1, L + 1)
        return r.choice([(1, L), (min(a, b), max(a, b)), (1, a), (a, L), (a, a), (a, b), (1, 2 * L)])
    for k in range(n):
        s = k % 16; x = r.random()
        if x < .5 or not made: c.append("con %d %d %d %d %d %d %d %d %d %d %d" % ((s,) + al() + al() + (rg() if r.random() < .7 else (0, L - 1)) + (rg() if r.random() < .7 else (0, L - 1)) + size()))
        elif x < .75: c.append("c_meet %d %d %d" % (s, r.choice(made), r.choice(made)))
        elif x < .8: c.append("c_dup %d %d" % (s, s2) if (s2 := live(c, made, r)) is not None else "c_any %d" % s)
        elif x < .83: c.append("%s %d" % (r.choice(["c_any", "c_dev"]), s))
        elif x < .88: c.append("c_min %d %d %d" % ((s,) + rg()))
        elif x < .92: c.append("c_max %d %d %d" % ((s,) + rg()))
        elif x < .96: a, b, d, e = sorted(r.randrange(L) for _ in range(4)); c.append("c_minmax %d %d %d %d %d" % (s, b, d, a, e))
        else: c.append("c_exact %d %d %d" % ((s,) + rg()))
        if s not in made: made.append(s)
    return c
def live(c, made, r):
    """A slot that certainly holds a constraint."""
    ok = [s for s in made if not [l for l in c if l.split()[1] == str(s)][-1].startswith("c_meet")]
    return r.choice(ok) if ok else None
