"""Build the IR of /repo's current tree, run dsym on harness entries, replay counterexamples natively."""
import os, re, subprocess, sys, json, time, shutil, hashlib, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DSYM_REPO", "/repo")
HC = REPO + "/heclib/heclib_c"
JOBS = min(8, os.cpu_count() or 8)
DSYM = os.environ.get("DSYM_BIN", VERIF + "/build/dsym")
INC = ["-I" + HC + "/src/headers", "-I" + REPO + "/heclib/hecdss", "-I" + VERIF + "/rt", "-I" + VERIF + "/harness"]

class BuildError(Exception): pass

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def sources():
    """the translation units the repository itself builds into heclib and hecdss"""
    out = []
    txt = open(HC + "/CMakeLists.txt").read()
    for m in re.findall(r"[\w./-]+\.c\b", txt):
        p = os.path.normpath(HC + "/" + m)
        if os.path.exists(p) and p not in out: out.append(p)
    txt = open(REPO + "/heclib/hecdss/CMakeLists.txt").read()
    for m in re.findall(r"[\w./-]+\.c\b", txt):
        p = os.path.normpath(REPO + "/heclib/hecdss/" + m)
        if os.path.exists(p) and p not in out: out.append(p)
    return out

CACHE = os.environ.get("DSYM_CACHE")   # development only: reuse objects newer than every source (never set by the checks)
def cached(jobs):
    if not CACHE: return jobs
    hd = max(os.path.getmtime(os.path.join(d, f)) for r in (HC, REPO + "/heclib/hecdss") for d, _, fs in os.walk(r) for f in fs if f.endswith(".h"))
    return [c for c in jobs if not (os.path.exists(c[-1]) and os.path.getmtime(c[-1]) > max(hd, os.path.getmtime(c[-3])))]
def cdir(work, s): return (CACHE if CACHE and s.startswith(REPO + "/") else work)
def par(jobs):
    jobs = cached(jobs)
    with ThreadPoolExecutor(JOBS) as ex:
        rs = list(ex.map(lambda c: run(c), jobs))
    for c, r in zip(jobs, rs):
        if r.returncode != 0: raise BuildError(" ".join(c) + "\n" + r.stderr[-3000:])

CF = ["-std=gnu99", "-O0", "-fno-strict-aliasing", "-ffp-contract=off", "-w", "-U_FORTIFY_SOURCE"]
def build_ir(work, harness, entries, extra=[]):
    os.makedirs(work + "/bc", exist_ok=True)
    jobs, outs = [], []
    srcs = sources() + [VERIF + "/rt/rt.c", VERIF + "/harness/" + harness]
    for s in srcs:
        o = cdir(work, s) + "/bc/" + hashlib.sha1(s.encode()).hexdigest()[:16] + ".bc"
        jobs.append(["clang-18", "-Xclang", "-disable-O0-optnone", "-gline-tables-only", "-D__NO_CTYPE", "-c", "-emit-llvm"] + CF + INC + extra + [s, "-o", o]); outs.append(o)
    par(jobs)
    r = run(["llvm-link-18"] + outs + ["-o", work + "/all.bc"])
    if r.returncode: raise BuildError(r.stderr[-3000:])
    keep = list(entries)
    syms = run(["llvm-nm-18", "--defined-only", work + "/all.bc"]).stdout
    keep += [l.split()[-1] for l in syms.splitlines() if l.split()[-1].startswith("rt_")]
    open(work + "/keep.txt", "w").write("\n".join(keep) + "\n")
    passes = "internalize,globaldce,function(sroa,early-cse,simplifycfg<bonus-inst-threshold=4;no-keep-loops;speculate-blocks;simplify-cond-branch>,early-cse,adce,simplifycfg),globaldce"
    r = run(["opt-18", "-passes=" + passes, "-internalize-public-api-file=" + work + "/keep.txt", work + "/all.bc", "-o", work + "/prog.bc"])
    if r.returncode: raise BuildError(r.stderr[-3000:])
    return work + "/prog.bc"

ENVREDEF = None
def build_native(work, harness, entries, asan=True, extra=[]):
    """gcc build of the real sources + harness + environment model, one executable per entry"""
    os.makedirs(work + "/nat", exist_ok=True)
    fl = ["-g", "-ftrivial-auto-var-init=pattern", "-fno-builtin"] + (["-fsanitize=address", "-fno-omit-frame-pointer"] if asan else [])
    jobs, objs = [], []
    base = ["-std=gnu99", "-O1", "-w", "-U_FORTIFY_SOURCE", "-fno-strict-aliasing", "-ffp-contract=off", "-DDSYM_NATIVE"]
    for s in sources() + [VERIF + "/harness/" + harness]:
        o = cdir(work, s) + "/nat/" + hashlib.sha1(s.encode()).hexdigest()[:16] + ".o"
        jobs.append(["gcc", "-c"] + base + fl + INC + extra + [s, "-o", o]); objs.append(o)
    par(jobs)
    # rt objects per entry
    nm = run(["gcc", "-c"] + base + fl + INC + ["-DH_ENTRY=" + entries[0], VERIF + "/rt/rt.c", "-o", work + "/nat/rt0.o"])
    if nm.returncode: raise BuildError(nm.stderr[-2000:])
    defs = [l.split()[-1] for l in run(["nm", "--defined-only", work + "/nat/rt0.o"]).stdout.splitlines()]
    names = [d[3:] for d in defs if d.startswith("rt_")]
    open(work + "/redef.txt", "w").write("".join("%s rt_%s\n" % (n, n) for n in names if re.match(r"[a-z_]", n)))
    # only undefined references are to be redirected
    def redir(o):
        und = set(l.split()[-1] for l in run(["nm", "-u", o]).stdout.splitlines())
        a = []
        for n in names:
            if n in und: a += ["--redefine-sym", n + "=rt_" + n]
        return run(["objcopy"] + a + [o]) if a else None
    with ThreadPoolExecutor(JOBS) as ex: list(ex.map(redir, objs))
    exes = {}
    def link(e):
        ro = work + "/nat/rt_%s.o" % e
        r = run(["gcc", "-c"] + base + fl + INC + ["-DH_ENTRY=" + e, VERIF + "/rt/rt.c", "-o", ro])
        if r.returncode: raise BuildError(r.stderr[-2000:])
        x = work + "/nat/" + e
        r = run(["gcc", "-o", x] + (["-fsanitize=address"] if asan else []) + objs + [ro, "-lm"])
        if r.returncode: raise BuildError(r.stderr[-2000:])
        return x
    with ThreadPoolExecutor(JOBS) as ex:
        for e, x in zip(entries, ex.map(link, entries)): exes[e] = x
    return exes

def replay(exe, inp, timeout=25):
    """run the natively compiled real code on a concrete input; returns (verdict, stdout)"""
    env = dict(os.environ); env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0"
    try:
        r = subprocess.run([exe, inp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "timeout", ""
    out = r.stdout.decode(errors="replace")
    if r.returncode == 0: return "ok", out
    if r.returncode == 1: return "violated:" + "".join(re.findall(r"^VIOLATED (.*)$", out, re.M)[:1]), out
    if r.returncode == 4: return "assume", out
    if r.returncode == 3: return "mismatch", out
    return "crash:%d" % r.returncode, out + r.stderr.decode(errors="replace")[-3000:]

def dsym(prog, entry, out, deadline, known=[], extra=[]):
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    cmd = [DSYM, prog, "--entry", entry, "--out", out, "--deadline", str(deadline), "--jobs", str(JOBS)] + extra
    for k in known: cmd += ["--known", k]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0 or not os.path.exists(out + "/result.json"):
        raise BuildError("engine failed: " + r.stderr.decode(errors="replace")[-500:])
    return json.load(open(out + "/result.json"))
