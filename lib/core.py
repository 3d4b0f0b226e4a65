"""What every check shares: budget, verdicts, replay files, evidence, known findings."""
import os, sys, json, time, random, re, collections, traceback, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build as buildmod, hist, tlc

class Ctx:
    def __init__(s, prop, tier):
        s.prop, s.tier = prop, tier
        s.seed = int(os.environ.get("VERIF_SEED", "1"))
        s.t0 = time.time()
        s.quick = tier != "thorough"
        s.r = random.Random("%s/%s/%d" % (prop, tier, s.seed))
        s.build = buildmod.build()
        s.states = s.transitions = s.traces = s.evaluations = 0
        s.samples, s.parts, s.viol, s.known = [], [], [], []
        s.cover = collections.Counter()
        s.assume = []
    def n(s, quick, thorough): return quick if s.quick else thorough
    def left(s): return (300 if s.quick else 820) - (time.time() - s.t0)
    def note(s, **kw): s.parts.append(kw)
    def sample(s, x):
        if len(s.samples) < 6: s.samples.append(x)
    def violation(s, what, replay):
        """replay: JSON-able description from which the failure can be repeated"""
        d = os.path.join(VERIF, "work", "replay"); os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "%s-%d.json" % (s.prop, len(s.viol) + 1))
        with open(f, "w") as fh: json.dump({"property": s.prop, "what": what, **replay}, fh, indent=1)
        s.viol.append((what, f))
        print("VIOLATION property=%s replay=%s" % (s.prop, f)); print("  " + str(what)[:400]); sys.stdout.flush()
    def finding(s, what):
        s.known.append(what); print("KNOWN-FINDING: property=%s %s" % (s.prop, what)); sys.stdout.flush()
    def finish(s):
        cov = {"states": s.states, "transitions": s.transitions, "traces_validated_against_impl": s.traces,
               "samples": s.samples[:6] or ["-"], "parts": s.parts, "operations": dict(s.cover)}
        ev = {"property": s.prop, "tier": s.tier, "seed": s.seed, "level": "model_checking", "coverage": cov,
              "assumptions": s.assume, "wall_s": round(time.time() - s.t0, 1), "violations": len(s.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", s.prop + ".json"), "w") as fh: json.dump(ev, fh, indent=1)
        print("%s %s: %d traces, %d states, %d transitions, %d violations, %d known findings, %.0f s"
              % (s.prop, s.tier, s.traces, s.states, s.transitions, len(s.viol), len(s.known), time.time() - s.t0))
        return 1 if s.viol else 0

def mine(ctx, also):
    def f(c): return c.startswith(ctx.prop + ".") or c.startswith("ANY.") or any(c.startswith(a) for a in also)
    return f

def run_table(ctx, hs, also=(), module="TableTrace", what="histories", driver="table", ignore=(), conv=hist.to_events, pre=("attrs 1",)):
    """Runs histories in the table driver, validates the recorded events against the trace
    specification, confirms each rejection by a second run and reports it."""
    t = time.time()
    outs = hist.run_driver(ctx.build, hs, driver=driver, pre=pre)
    evs = [conv(h, o, {}) for h, o in zip(hs, outs)]
    rej, gen, dist, notes = tlc.check(module, evs)
    ctx.traces += len(evs); ctx.states += dist; ctx.transitions += sum(len(e) for e in evs)
    for e in evs:
        for x in e: ctx.cover["%s/%s" % (x["op"], "ok" if x["ok"] else "refused")] += 1
    ok = mine(ctx, also)
    k = ctx.r.randrange(len(hs)) if hs else 0
    if hs: ctx.sample({"commands": hs[k][:12], "events": len(evs[k])})
    ctx.note(part=what, histories=len(hs), events=sum(map(len, evs)), rejected=len(rej), seconds=round(time.time() - t, 1))
    seen = collections.Counter()
    for hi, ei, c in rej:
        if not ok(c) or c in ignore: continue
        seen[c] += 1
        if seen[c] > 2: continue
        cut = cut_history(hs[hi], outs[hi], evs[hi], ei)
        o2 = hist.run_driver(ctx.build, [cut], driver=driver, pre=pre)
        r2, _, _, _ = tlc.check(module, [conv(cut, o2[0], {})])
        if any(x[2] == c for x in r2):
            ctx.violation("%s: event %d of the history (%s)" % (c, ei + 1, cut[-1] if cut else ""),
                          {"kind": driver, "module": module, "clause": c, "history": cut, "pre": list(pre)})
        else:
            ctx.note(part="unconfirmed rejection", clause=c, history=hs[hi], event=ei)
            print("note: rejection %s was not confirmed by a second run" % c)
    return rej, evs, outs

def cut_history(h, out, ev, ei):
    """The commands up to the one that produced event ei (policy commands produce no event)."""
    if "ci" in ev[ei]: return h[:ev[ei]["ci"] + 1]
    n = -1
    for j, line in enumerate(h):
        op = line.split()[1 if line.startswith("!") else 0]
        if op in ("policy", "uuidctr", "attrs"): continue
        n += 1
        if n == ei: return h[:j + 1]
    return h

MC = """CONSTANTS Lab="%s" Len0=%d SS=%d H=%d SC=%d CylAlign=%d Pts={%s} MaxParts=%d Depth=%d Gen=%d
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
%s
"""
def mc_cfg(lab, L, ss, h, sc, cyl, pts, mp, depth=0, gen=0, props="INVARIANTS WF MaxStable ExactOK\nPROPERTIES OnlyTarget Lowest"):
    return MC % (lab, L, ss, h, sc, cyl, ",".join(map(str, pts)), mp, depth, gen, props)

def model_check(ctx, module, cfgs, what, timeout=600, jobs=8, env=None):
    """Exhaustive TLC runs of the specification itself; a violated invariant of the
    specification is a tool error (the specification is wrong), not a verdict on the code."""
    from concurrent.futures import ThreadPoolExecutor
    def go(x):
        name, cfg = x; t = time.time()
        rc, o = tlc.run_tlc(module, cfg, workers=1, timeout=timeout, env=env)
        if rc: raise tlc.ToolError("%s (%s): TLC rc %d\n%s" % (module, name, rc, o[-3000:]))
        g, d = tlc.stats(o)
        return name, g, d, round(time.time() - t, 1)
    with ThreadPoolExecutor(jobs) as ex:
        for name, g, d, t in ex.map(go, cfgs):
            ctx.states += d; ctx.transitions += g
            ctx.note(part=what, model=name, generated=g, distinct=d, seconds=t)

def behaviours(ctx, cfgs, num, module="MCPartTable", timeout=300):
    """Random behaviours of the specification (TLC -simulate), as lists of commands."""
    from concurrent.futures import ThreadPoolExecutor
    def go(x):
        j, cfg = x
        rc, o = tlc.run_tlc(module, cfg, workers=1, timeout=timeout, extra=["-simulate", "num=%d" % num, "-depth", "200", "-seed", str(ctx.seed * 1000 + j)])
        if rc: raise tlc.ToolError("simulation of %s: rc %d\n%s" % (module, rc, o[-3000:]))
        return [re.findall(r'"((?:[^"\\]|\\.)*)"', b)  for b in re.findall(r'<< ?"BEH",(.*?)>> ?>>', o, re.S)]
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(go, list(enumerate(cfgs))))
    out, seen = [], set()
    for b in res:
        for x in b:
            k = tuple(x)
            if k not in seen: seen.add(k); out.append(x)
    return out

def main(table):
    import argparse
    a = argparse.ArgumentParser(); a.add_argument("prop"); a.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
    a = a.parse_args()
    try:
        ctx = Ctx(a.prop, a.tier)
        table[a.prop](ctx)
        return ctx.finish()
    except SystemExit: raise
    except Exception:
        traceback.print_exc(); print("ERROR: the check of %s could not be completed" % a.prop)
        return 4
