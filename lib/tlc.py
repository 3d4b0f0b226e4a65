"""Runs TLC on a trace specification: histories (lists of events) are split into batches, each
checked by one TLC process; rejected events come back as (history, event, clause)."""
import os, re, json, subprocess, tempfile, shutil, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = "/opt/veriftools/tla/tla2tools.jar"

class ToolError(Exception): pass

def scratch(prefix="vf"):
    base = os.path.join(VERIF, "work"); os.makedirs(base, exist_ok=True)
    return tempfile.mkdtemp(prefix=prefix + "_", dir=base)

def classpath():
    ext = "/opt/veriftools/tla"
    jars = [os.path.join(ext, f) for f in sorted(os.listdir(ext)) if f.endswith(".jar")]
    jars.sort(key=lambda p: 0 if p.endswith("tla2tools.jar") else 1)
    return ":".join(jars)

def run_tlc(module, cfg, env=None, workers=1, timeout=600, extra=(), mem="2g", keep=None):
    """One TLC run; returns its output.  Raises ToolError on anything that is not a verdict."""
    d = scratch("tlc")
    try:
        for f in os.listdir(os.path.join(VERIF, "spec")):
            if f.endswith(".tla"): os.symlink(os.path.join(VERIF, "spec", f), os.path.join(d, f))
        with open(os.path.join(d, "run.cfg"), "w") as fh: fh.write(cfg)
        e = dict(os.environ); e.update(env or {}); e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-Djava.io.tmpdir=" + d, "-Xmx" + mem, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4",
               "-cp", classpath(), "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "states"),
               "-noGenerateSpecTE", "-config", "run.cfg"] + list(extra) + [module]
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on " + module)
        if keep: shutil.copytree(d, keep, dirs_exist_ok=True, symlinks=True)
        return r.returncode, r.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)

def stats(out):
    m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

TRACE_CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"

def check_batch(module, hists, timeout=600, cfg=TRACE_CFG, env=None, split=True):
    d = scratch("tr")
    try:
        f = os.path.join(d, "trace.json")
        with open(f, "w") as fh: json.dump(hists, fh)
        e = {"TRACE": f}; e.update(env or {})
        rc, out = run_tlc(module, cfg, e, timeout=timeout)
        if rc != 0 or "Model checking completed. No error has been found" not in out:
            if split and len(hists) > 1 and "Parse Error" not in out and "Semantic errors" not in out and "semantic analysis failed" not in out:      # find the history TLC cannot evaluate
                k = len(hists) // 2
                a = check_batch(module, hists[:k], timeout, cfg, env); b = check_batch(module, hists[k:], timeout, cfg, env)
                return (sorted(a[0] + [(x + k, y, z) for x, y, z in b[0]]), a[1] + b[1], a[2] + b[2], a[3] + b[3])
            rej = sorted({(int(x) - 1, int(y) - 1, z) for x, y, z in re.findall(r'<<"REJ", (\d+), (\d+), "([^"]*)">>', out)})
            if rej: return rej, 0, 0, []      # an observation outside the model, behind a rejected one
            raise ToolError("TLC failed on %s (rc %d):\n%s" % (module, rc, out[-3500:]))
        gen, dist = stats(out)
        want = sum(len(x) for x in hists) + len(hists)
        if dist != want:
            raise ToolError("TLC visited %d states of %s, expected %d" % (dist, module, want))
        rej = set()
        for m in re.finditer(r'<<"REJ", (\d+), (\d+), "([^"]*)">>', out):
            rej.add((int(m.group(1)) - 1, int(m.group(2)) - 1, m.group(3)))
        notes = re.findall(r'<<"NOTE", (.*)>>', out)
        return sorted(rej), gen, dist, notes
    finally:
        shutil.rmtree(d, ignore_errors=True)

def check(module, hists, batch_events=1500, jobs=8, timeout=600, env=None):
    """All histories; returns (rejections, states, distinct, notes) with global history indexes."""
    batches, cur, n, base = [], [], 0, 0
    per = max(200, min(batch_events, (sum(len(x) for x in hists) + jobs - 1) // jobs))
    start = 0
    for j, x in enumerate(hists):
        cur.append(x); n += len(x)
        if n >= per: batches.append((start, cur)); start = j + 1; cur = []; n = 0
    if cur: batches.append((start, cur))
    rej, gen, dist, notes = [], 0, 0, []
    def one(b):
        return b[0], check_batch(module, b[1], timeout, env=env)
    with ThreadPoolExecutor(jobs) as ex:
        for s, (r, g, dd, nt) in ex.map(one, batches):
            rej += [(a + s, b, c) for a, b, c in r]; gen += g; dist += dd; notes += nt
    return sorted(rej), gen, dist, notes
