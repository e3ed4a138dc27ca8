#!/usr/bin/env python3
# developer driver: dev.py harness.c entry[,entry...] [dsym options]   (env NAT=1: also replay samples natively; DL: deadline; TH: THOROUGH)
import sys, os, json, subprocess, time
import dsymlib as L
h, es = sys.argv[1], sys.argv[2].split(",")
w = os.environ.get("W", "/tmp/w/dev_" + h.replace(".c", "")); t = time.time(); D = ["-DTHOROUGH=" + os.environ.get("TH", "0")]
try: p = L.build_ir(w, h, es, D)
except L.BuildError as e: print(str(e)[:200]); print("\n".join(x for x in str(e).split("\n") if "error" in x or "undefined" in x)[:2000]); sys.exit(2)
print("ir %.1fs" % (time.time() - t)); nat = None
for e in es:
    out = w + "/out_" + e; os.system("rm -rf %s; mkdir -p %s" % (out, out))
    r = subprocess.run([L.DSYM, p, "--entry", e, "--out", out, "--deadline", os.environ.get("DL", "300"), "-v"] + sys.argv[3:])
    try: j = json.load(open(out + "/result.json"))
    except Exception as x: print("NO RESULT", e, r.returncode); continue
    for a in j["asserts"]: print("  %-45s reached %-6d proved %-6d trivial %-6d violated %d" % (a["label"], a["reached"], a["proved"], a["trivial"], a["violated"]))
    print("  covers", {a["label"]: a["reached"] for a in j["covers"]})
    if os.environ.get("S"): print("\n".join(j["samples"][:3]))
    if os.environ.get("NAT") or j["violations"]:
        if not nat: t = time.time(); nat = L.build_native(w, h, es, extra=D); print("native %.1fs" % (time.time() - t))
        x = nat[e]; res = [L.replay(x, out + "/sample_%d.txt" % i)[0] for i in range(len(j["samples"]))]
        print("  samples", {r: res.count(r) for r in set(res)})
        for v in j["violations"][:int(os.environ.get("NV", "3"))]:
            s, o = L.replay(x, v["file"]); f = open(v["file"]).read().replace("\n", "; ")
            print("  cex", v["label"], "->", s, "|", " ".join(o.split("Shadow byte")[0].split())[-500:]); print("    ", f[:500])
