"""GPT histories: commits cut off, damaged copies, grown devices; see spec/GptTrace.tla."""
import json
import hist

FL = ["hidden", "legacy_boot", "no_automount", "boot", "lvm", "raid", "bios_grub", "msftdata", "swap", "prep"]

def edits(r, n, L, ss, length, size):
    g = 2 + -(-16384 // ss); a0, a1 = g, length - g + 1
    for _ in range(n):
        x = r.random(); a = r.randrange(a0, a1); b = min(a1 - 1, a + r.randrange(1, size))
        if x < .45: L.append("add 0 p %s %d %d any" % (r.choice(["-", "ext2", "fat32", "linux-swap(v1)", "ntfs"]), a, b))
        elif x < .55: L.append("rm 0 %d" % r.randrange(1, 5))
        elif x < .65: L.append("setgeom 0 %d %d %d any" % (r.randrange(1, 4), a, b))
        elif x < .8: L.append("flag 0 %d %s %d" % (r.randrange(1, 4), r.choice(FL), r.choice([1, 1, 0])))
        elif x < .95:
            nm = "".join(r.choice("abcdefXYZ 019-_") for _ in range(r.choice([1, 5, 20, 35, 36]))).strip() or "x"
            L.append("name 0 %d %s" % (r.randrange(1, 4), nm.encode().hex()))
        else: L.append("dflag 0 pmbr_boot %d" % r.choice([0, 1]))

def damage(r, copy, ss, length, arr):
    """Commands that damage one copy on device 2 (header at lba, array of arr sectors at a)."""
    lba = 1 if copy == "p" else length - 1
    a = 2 if copy == "p" else length - 1 - arr
    x = r.random()
    if x < .30: return ["xor 2 %d %d %d" % (lba, r.randrange(0, 92), 1 << r.randrange(8))]
    if x < .38: return ["xor 2 %d %d %d" % (lba, r.choice(list(range(8)) + list(range(16, 20)) + list(range(24, 32))), r.randrange(1, 256))]
    if x < .60: return ["xor 2 %d %d %d" % (a + r.choice([0, 0, 0, r.randrange(arr)]), r.choice([r.randrange(128), r.randrange(512), r.randrange(ss)]), r.randrange(1, 256))]
    if x < .66: return ["poke 2 %d 0 %s" % (lba, "00" * ss)]
    if x < .70: return ["poke 2 %d 0 %s" % (a, "%02x" % r.choice([0, 255, 0x41]) * ss)]
    if x < .73: return ["copy 2 %d %d 1" % (0, lba)]
    # a field that is wrong although the checksum holds
    f = r.choice([(0, 8, r.choice([0x5452415020494646, 0, 0x5452415020494644])), (12, 4, r.choice([91, 0, ss + 1, 0xffffffff, 88])),
                  (24, 8, r.choice([2, 0, length - 1 if copy == "p" else 1, lba + 1, 1 << 33 | lba])), (88, 4, r.getrandbits(32)),
                  (72, 8, r.choice([3, 4, 5] if copy == "p" else [a - 1, a - 2, 3])), (84, 4, r.choice([0, 64, 127, 136, 0xfffffff8])),
                  (80, 4, r.choice([0, 8193, 0x10000000, 127])), (40, 8, r.choice([0, 1, 2])),
                  (32, 8, r.choice([2, length - 1, 0, length - 2]) if copy == "e" else r.choice([1]))])
    return ["gptset 2 %d %d %d %d" % (lba, f[0], f[1], f[2])]

def history(r, kind):
    ss = r.choice([512, 512, 512, 1024, 4096])
    arr = -(-16384 // ss)
    length = 2 * arr + 3 + r.randrange(1, 200)
    L = ["policy 1", "dev 0 %d %d 4 4 %d" % (length, ss, r.choice([0, r.randrange(1, 10**6)])), "new 0 0 gpt"]
    edits(r, r.randrange(1, 5), L, ss, length, max(3, (length - 2 * arr) // 3))
    L += ["commit 0", "gptdec 0 # commit"]
    def change():
        edits(r, r.randrange(1, 4), L, ss, length, max(3, (length - 2 * arr) // 3))
        L.extend(["snap 0 1", "jclear 0 1", "commit 0", "gptdec 0 # commit"])
    tot = 3 + 2 * arr
    def cut(m, repair):
        L.extend(["snap 1 2", "replay 0 2 %d" % m, "gptdec 2 # crash %d %d" % (m, tot), "read 3 2", ])
        if repair: L.extend(["commit 3", "gptdec 2 # repair"])
    if kind == "crash":
        for _ in range(r.randrange(1, 3)):
            change()
            ms = range(tot + 1) if ss > 512 or r.random() < .4 else sorted(set(r.sample(range(tot + 1), 16)) | {0, 1, 2, 3, tot - arr, tot - arr - 1, tot - 1, tot})
            for m in ms: cut(m, r.random() < .15)
    elif kind == "damage":
        if r.random() < .3: change()
        for _ in range(14):
            L.append("snap 0 2")
            w = r.choice("peppee") if r.random() < .88 else "pe"
            for c in w:
                ds = [damage(r, c, ss, length, arr) for _ in range(r.choice([1, 1, 2]))]
                # (a checksum made to match goes first: it would cover up other damage)
                for d in sorted(ds, key=lambda d: not d[0].startswith("gptset")): L.extend(d)
            pol = r.choice([1, 1, 1, 3])
            L.append("policy %d" % pol)
            L.extend(["gptdec 2 # damage %s" % w, "read 3 2", "policy 1"])
            if r.random() < .5: L.extend(["commit 3", "gptdec 2 # repair"])
    elif kind == "grown":
        for _ in range(3):
            fix = r.choice([0, 1])
            n = length + r.choice([1, 2, arr, arr + 1, arr + 2, r.randrange(1, 5000)])
            L.extend(["snap 0 2", "setlen 2 %d" % n, "policy %d" % (1 if fix else 3), "read 3 2", "gptdec 2 # grown %d" % fix, "policy 1"])
    elif kind == "dup":
        for _ in range(3):
            L += ["snap 0 2"]; fu = 2 + arr + r.choice([0, 0, 1, 5, 30]); lu = length - 2 - arr - r.choice([0, 0, 1, 7])
            if r.random() < .6: L += ["gptset 2 %d 40 8 %d" % (x, fu) for x in (1, length - 1)]
            if r.random() < .4: L += ["gptset 2 %d 48 8 %d" % (x, lu) for x in (1, length - 1)]
            if r.random() < .5: L += ["setlen 2 %d" % (length + r.choice([1, 2, arr, arr + 1, r.randrange(1, 5000)]))]
            L += ["policy 3", "read 3 2", "commit 3", "gptdec 2 # own", "dup 3 4"]
            if r.random() < .5: L.append("destroy 3")
            L += ["commit 4", "gptdec 2 # dup", "policy 1"]
    return L

def tab(st):
    if not st or st["lab"] != "gpt": return []
    return [{"ents": sorted(({"n": q["n"], "s": q["s"], "e": q["e"], "tu": q["tu"], "u": q["u"], "nm": q["nm"],
                              "at": [int("hidden" in q["fl"]), int("legacy_boot" in q["fl"]), int("no_automount" in q["fl"])]} for q in st["a"]), key=lambda z: z["n"]),
             "dg": st["du"], "pb": int("pmbr_boot" in st["df"])}]
NOH = {"in": 0, "sig": 0, "rev": 0, "szok": 0, "crc": 0, "my": 0, "alt": 0, "fu": 0, "lu": 0, "el": 0, "cnt": 0, "es": 0, "acrc": 0, "dg": "", "ents": []}
def dec(o):
    return {k: (o[k] if k not in "PAE" else {**NOH, **o[k]}) for k in ("len", "ss", "pm", "pb", "P", "A", "E")}
B = {"op": "", "ci": 0, "ok": 0, "x": 0, "tab": [], "dec": dec({"len": 0, "ss": 512, "pm": 0, "pb": 0, "P": {}, "A": {}, "E": {}}), "m": 0, "tot": 0, "which": "", "fix": 0, "quiet": 0}

def conv(cmds, outs, lens):
    ev = []
    last, pol = {}, "1"
    for j, o in enumerate(outs):
        if o["c"] in ("crash", "garbled", "stopped"): ev.append({**B, "op": "stop", "ci": j}); break
        if o["c"] == "skipped": break
        t = cmds[j].split()
        if t[0] == "policy": pol = t[1]
        if t[0] == "gptdec" and "#" in t:
            q = t[t.index("#") + 1:]; d = dec(o)
            if q[0] in ("commit", "repair"):
                c = last.get("commit")
                if q[0] == "repair" and not (c and c.get("st")): continue   # nothing was read
                ev.append({**B, "op": q[0], "ci": j, "ok": c["ok"], "x": c["x"], "tab": tab(c.get("st")), "dec": d})
            elif q[0] in ("own", "dup"):
                c = last["read" if q[0] == "own" else "dup"]
                ev.append({**B, "op": q[0], "ci": j, "ok": int(c["ok"] and last["commit"]["ok"]), "x": c["x"], "tab": tab(c.get("st")), "dec": d, "quiet": int(last.get("own") == o["dg"])}); last["own"] = o["dg"]
            elif q[0] == "grown":
                c = last["read"]; ev.append({**B, "op": "grown", "ci": j, "ok": c["ok"], "x": c["x"], "tab": tab(c.get("st")), "dec": d, "fix": int(q[1]), "quiet": int(last["snap"]["dg"] == c["dg"])})
            else: last["pend"] = (q, d)
        elif t[0] == "read" and "pend" in last:
            q, d = last.pop("pend"); e = {**B, "op": q[0], "ci": j, "ok": o["ok"], "x": o["x"], "tab": tab(o.get("st")), "dec": d, "fix": int(pol == "1"), "quiet": int(o["dg"] == last["gptdec"]["dg"])}
            if q[0] == "crash": e["m"], e["tot"] = int(q[1]), int(q[2])
            else: e["which"] = "".join(sorted(set(q[1])))
            ev.append(e)
        last[t[0]] = o
    return ev
