#!/usr/bin/env python3
"""Builds libparted, libparted-fs-resize and the parted program, plus the drivers in
/verif/harness, from /repo's *current working tree*, directly with gcc.

Nothing is reused from /repo/_build but what configure/gnulib generated (config.h, gnulib
headers and libgnulib.a: none of it is tracked code).  The result lands in
/verif/build/<hash of every source that goes in>, so an unchanged tree is built once and a
changed tree is always rebuilt, whatever the time stamps say.
"""
import os, sys, re, glob, hashlib, subprocess, shutil, fcntl, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(REPO, "_build")
OUT = os.path.join(VERIF, "build")

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write("command failed: %s\n%s\n" % (" ".join(cmd) if isinstance(cmd, list) else cmd, r.stdout))
        raise SystemExit(3)
    return r.stdout

def find(d, ext):
    r = []
    for root, dirs, files in os.walk(os.path.join(REPO, d)):
        dirs[:] = sorted(x for x in dirs if x not in (".deps", ".libs", "tests"))
        r += [os.path.join(root, f) for f in sorted(files) if f.endswith(ext)]
    return r

def sources():
    lib = sorted(glob.glob(REPO + "/libparted/*.c")) + sorted(glob.glob(REPO + "/libparted/cs/*.c"))
    lib += [REPO + "/libparted/arch/linux.c"]
    lib += [f for f in sorted(glob.glob(REPO + "/libparted/labels/*.c"))
            if os.path.basename(f) not in ("dasd.c", "fdasd.c", "vtoc.c", "pt-limit.c")]
    lib += [f for f in find("libparted/fs", ".c") if "/libparted/fs/r/" not in f]
    fsr = [f for f in find("libparted/fs/r", ".c")]
    cli = sorted(glob.glob(REPO + "/parted/*.c"))
    return lib, fsr, cli

def tree_hash():
    h = hashlib.sha256()
    fs = []
    for d in ("libparted", "include", "parted"):
        fs += find(d, (".c", ".h", ".gperf", ".sym"))
    fs += sorted(glob.glob(VERIF + "/harness/*.[ch]")) + [os.path.abspath(__file__)]
    fs += [B + "/lib/config.h"]
    for f in fs:
        h.update(f.encode()); h.update(b"\0")
        with open(f, "rb") as fh: h.update(fh.read())
    return h.hexdigest()[:20]

DRIVERS = {   # driver -> extra link/compile flags
}

def ensure_configured():
    if not os.path.exists(B + "/lib/config.h") or not os.path.exists(B + "/lib/.libs/libgnulib.a"):
        sh(["bash", "/opt/vp/build.sh"])

def build(verbose=False):
    ensure_configured()
    os.makedirs(OUT, exist_ok=True)
    lock = open(OUT + "/.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(verbose)
    finally:
        lock.close()

def _build(verbose):
    t0 = time.time()
    hsh = tree_hash()
    dst = os.path.join(OUT, hsh)
    if os.path.exists(dst + "/.done"):
        os.utime(dst)
        return dst
    # keep few old builds
    old = sorted((d for d in glob.glob(OUT + "/*") if os.path.isdir(d)), key=os.path.getmtime)
    for d in old[:-3]:
        shutil.rmtree(d, ignore_errors=True)
    tmp = dst + ".tmp"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp + "/include/parted"); os.makedirs(tmp + "/obj"); os.makedirs(tmp + "/gen")
    # public headers
    for f in glob.glob(REPO + "/include/parted/*.in.h"):
        s = open(f).read()
        s = re.sub(r" _GL_ATTRIBUTE_CONST\b", "\n#if __GNUC__ > 2\n  __attribute ((__const__))\n#endif\n", s)
        s = re.sub(r" _GL_ATTRIBUTE_PURE\b", "\n#if __GNUC__ > 2\n  __attribute ((__pure__))\n#endif\n", s)
        open(tmp + "/include/parted/" + os.path.basename(f)[:-5] + ".h", "w").write(s)
    # generated sources
    opts = "-C -N pt_limit_lookup -n -t -s 6 -k * --language=ANSI-C"
    mk = open(REPO + "/libparted/labels/Makefile.am").read()
    m = re.search(r"GPERF_OPTIONS\s*=\s*((?:.*\\\n)*.*)", mk)
    if m: opts = m.group(1).replace("\\\n", " ").replace("'", "")
    s = sh(["gperf"] + opts.split() + [REPO + "/libparted/labels/pt-limit.gperf"])
    s = s.replace("__GNUC_STDC_INLINE__", "__GNUC_STDC_INLINE__")
    s = "".join(("static\n" + l if "__GNUC_STDC_INLINE__" in l else l) for l in s.splitlines(True))
    open(tmp + "/gen/pt-limit.c", "w").write(s)
    open(tmp + "/gen/version.h", "w").write("extern char const *Version;\n")
    open(tmp + "/gen/version.c", "w").write('#include <config.h>\nchar const *Version = "3.6.1";\n')
    inc = ["-I" + tmp + "/gen", "-I" + tmp + "/include", "-I" + B + "/lib", "-I" + REPO + "/lib",
           "-I" + REPO + "/libparted", "-I" + REPO + "/libparted/labels"]
    base = ["gcc", "-c", "-g", "-O1", "-w", "-fPIC", "-std=gnu17"]
    lib, fsr, cli = sources()
    jobs = []
    def obj(pref, f):
        return tmp + "/obj/" + pref + "_" + f.replace(REPO + "/", "").replace("/", "_")[:-2] + ".o"
    libo, fsro, clio = [], [], []
    for f in lib:
        o = obj("l", f); libo.append(o)
        jobs.append(base + ["-I" + os.path.dirname(f)] + inc + ["-o", o, f])
    for f in fsr:
        o = obj("r", f); fsro.append(o)
        jobs.append(base + ["-I" + os.path.dirname(f)] + inc + ["-o", o, f])
    for f in cli:
        o = obj("c", f); clio.append(o)
        jobs.append(base + ["-I" + os.path.dirname(f)] + inc + ["-o", o, f])
    o = tmp + "/obj/c_version.o"; clio.append(o)
    jobs.append(base + inc + ["-o", o, tmp + "/gen/version.c"])
    with ThreadPoolExecutor(8) as ex: list(ex.map(sh, jobs))
    gnulib = B + "/lib/.libs/libgnulib.a"
    sys_libs = ["-luuid", "-lblkid", "-ldevmapper", "-lm", "-lpthread"]
    cfg = open(B + "/lib/config.h").read()
    if "#define USE_BLKID 1" not in cfg: sys_libs.remove("-lblkid")
    if "#define ENABLE_DEVICE_MAPPER 1" not in cfg: sys_libs.remove("-ldevmapper")
    sh(["ar", "rcs", tmp + "/libvparted.a"] + libo)
    # drivers
    jobs = []
    for f in sorted(glob.glob(VERIF + "/harness/drv_*.c")):
        name = os.path.basename(f)[4:-2]
        src = open(f).read()
        m = re.search(r"^// *LINK: *(.*)$", src, re.M)
        extra = m.group(1).split() if m else []
        jobs.append(["gcc", "-g", "-O1", "-w", "-std=gnu17", "-I" + VERIF + "/harness"] + inc + ["-o", tmp + "/" + name, f]
                    + libo + (fsro_objs(tmp, fsro) if "FSR" in extra else [])
                    + [x for x in extra if x != "FSR"] + [gnulib] + sys_libs)
    if "-static" in sys.argv: pass
    jobs.append(["gcc", "-g", "-o", tmp + "/parted"] + clio + libo + [gnulib, "-lreadline", "-ltinfo"] + sys_libs)
    with ThreadPoolExecutor(8) as ex: list(ex.map(sh, jobs))
    shutil.rmtree(tmp + "/obj")
    os.rename(tmp, dst)
    open(dst + "/.done", "w").write("%.1f\n" % (time.time() - t0))
    if verbose: print("built in %.1f s: %s" % (time.time() - t0, dst))
    return dst

def fsro_objs(tmp, fsro):
    """The resize library hides its own symbols (they clash with libparted's copies): link it
    into one relocatable object and localise everything but its public interface."""
    o = tmp + "/obj/fsr_all.o"
    if not os.path.exists(o):
        sym = open(REPO + "/libparted/fs/fsresize.sym").read()
        m = re.search(r"global:(.*?)local:", sym, re.S)
        keep = [x.strip() for x in m.group(1).split(";") if x.strip()]
        sh(["ld", "-r", "-o", o + ".t"] + fsro)
        sh(["objcopy"] + ["--keep-global-symbol=" + k for k in keep] + [o + ".t", o])
    return [o]

if __name__ == "__main__":
    print(build(True))
