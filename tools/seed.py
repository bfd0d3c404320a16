#!/usr/bin/env python3
"""seed.py SPEC [ID...]: plants changes described in SPEC in scratch copies of /repo's HEAD.

SPEC holds blocks
  @@ ID PROPERTY PKGDIR
  NEEDS: ...
  BREAKS: ...
  FILE path (relative to the repository)
  <<<<
  old text
  ====
  new text
  >>>>
  DEMO
  Go source with TestZZDemo (package clause and imports added: tools/demo_head.go.txt)
  END
Each is built, tested, demonstrated on both trees and stored in /verif/seeded/ID; then
the quick check of the property runs against the patched copy.
"""
import sys, os, re, subprocess, json, shutil, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod", GOSUMDB="off")
def run(cmd, cwd, t=300):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return "timeout", ""
def rm(d): subprocess.run(["/bin/rm", "-rf", d])
base = "/tmp/sd/base"
rm(base); os.makedirs("/tmp/sd", exist_ok=True)
subprocess.run(["git", "clone", "-q", "/repo", base], check=True)
head = open(V + "/tools/demo_head.go.txt").read()
blocks = re.split(r"(?m)^@@ ", open(sys.argv[1]).read())[1:]
catch = {}
cf = V + "/tools/catches.json"
for b in blocks:
    hd, rest = b.split("\n", 1)
    h = hd.split()
    sid, prop, pkg = h[0], h[1], (h[2] if len(h) > 2 else "processors")
    if len(sys.argv) > 2 and sid not in sys.argv[2:]: continue
    needs = re.search(r"NEEDS: (.*)", rest).group(1); breaks = re.search(r"BREAKS: (.*)", rest).group(1)
    src, demo = rest.split("\nDEMO\n", 1); demo = demo.split("\nEND", 1)[0]
    w = "/tmp/sd/w_" + sid; rm(w); subprocess.run(["cp", "-a", base, w], check=True)
    bad = None
    cur = None
    for m in re.finditer(r"(?ms)^FILE (\S+)$|^<<<<\n(.*?)\n====\n(.*?)\n?>>>>$", src):
        if m.group(1): cur = m.group(1); continue
        p = os.path.join(w, cur); s = open(p).read()
        if s.count(m.group(2)) != 1: bad = "old text occurs %d times: %s" % (s.count(m.group(2)), m.group(2)[:60]); break
        open(p, "w").write(s.replace(m.group(2), m.group(3)))
    if bad: print(sid, "ERROR", bad); rm(w); continue
    d = V + "/seeded/" + sid; new = not os.path.exists(d)
    os.makedirs(d, exist_ok=True)
    def fail(x, log=""):
        print(sid, "ERROR", x, "\n" + log[-1500:] if log else ""); 
        if new: rm(d)
        rm(w)
    patch = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(patch)
    if pkg == "sh":
        open(d + "/demo.sh", "w").write(open(V + "/tools/demo_sh_head.sh").read() + demo + "\n")
    else:
        open(d + "/demo_test.go.txt", "w").write((head if pkg == "processors" else "") + demo + "\n")
        open(d + "/demo.sh", "w").write(open(V + "/tools/demo.sh.tmpl").read().replace("@PKG@", pkg))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    def dm(cwd):
        return run(["bash", d + "/demo.sh"], cwd)
    rc, o = dm(base)
    if rc != 0: fail("demo fails on the clean tree", o); continue
    rc, o = run(["go", "build", "./..."], w)
    if rc != 0: fail("does not build", o); continue
    rc, o = run(["go", "test", "./..."], w)
    if rc != 0: fail("tests fail", o); continue
    rc, o = dm(w)
    if rc == 0: fail("demo passes with the change"); continue
    line = [l for l in o.split("\n") if "demo_test" in l or "panic:" in l or "FAIL" in l][:1]
    s = time.time()
    rc, o = run([V + "/bin/symgo", "-noevidence", "-verif", V, "-prop", prop, "-repo", w], V, 600)
    v = [l for l in o.split("\n") if "assert:" in l or "panic:" in l or "VIOLATION" in l]
    print("%s %s check=%s (%ds) demo: %s\n    %s" % (sid, prop, rc, time.time() - s, (line or [""])[0].strip()[:120], (v or o.strip().split("\n")[-1:])[0][:200]), flush=True)
    c = json.load(open(cf)) if os.path.exists(cf) else {}
    c[sid] = "yes (" + prop + ")" if rc == 1 else "no"
    json.dump(c, open(cf, "w"), indent=1, sort_keys=True)
    rm(w)
