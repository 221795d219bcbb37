#!/usr/bin/env python3
"""plant.py DIR...  - confirms seeded bugs: applies seeded/ID/patch.diff to /repo, rebuilds, runs the
stable tests, the demonstration and the property's check, and reverts.   --make ID PROP < edits creates
one (edits: 'FILE path' lines and <<<\\nold\\n===\\nnew\\n>>> blocks)."""
import json, os, re, shutil, subprocess, sys
V = os.environ.get("V", "/verif"); R = os.environ.get("REPO", "/repo")
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, cwd=R, **k)
def stable():
    if R != "/repo": return "tests not run"
    if sh("bash /opt/vp/build.sh").returncode: return "BUILD FAILED"
    sh("bash /opt/vp/test.sh /tmp/plant.json")
    d = json.load(open("/tmp/plant.json")); return "tests %s failed" % (len(d["failed"]) if isinstance(d["failed"], list) else d["failed"])
def make(i, prop):
    text = sys.stdin.read(); f = None; d = f"{V}/seeded/{i}"; os.makedirs(d, exist_ok=True)
    assert not sh("git status --porcelain").stdout
    try:
        for m in re.finditer(r"^FILE (\S+)$|<<<\n(.*?)\n===\n(.*?)\n?>>>", text, re.S | re.M):
            if m.group(1): f = f"{R}/{m.group(1)}"; continue
            s = open(f).read(); assert s.count(m.group(2)) == 1, (f, s.count(m.group(2)), m.group(2)[:80])
            open(f, "w").write(s.replace(m.group(2), m.group(3)))
        open(f"{d}/patch.diff", "w").write(sh("git diff").stdout)
    finally:
        sh("git checkout -- .")
    needs, breaks = re.search(r"^NEEDS (.*)$", text, re.M).group(1), re.search(r"^BREAKS (.*)$", text, re.M).group(1)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    if "HEADERONLY" not in text: shutil.copy(f"{V}/tools/demo_template.sh", f"{d}/demo.sh")
    shutil.copytree(f"{V}/shim", f"{d}/shim", dirs_exist_ok=True)
    os.chmod(f"{d}/demo.sh", 0o755)
def confirm(i):
    d = next(x for x in (f"{V}/seeded/{i}", f"{V}/planted/{i}") if os.path.isdir(x)); p = json.load(open(f"{d}/meta.json"))["property"]
    assert not sh("git status --porcelain").stdout
    shutil.rmtree("/tmp/plantdemo", ignore_errors=True); shutil.copytree(d, "/tmp/plantdemo")
    clean = sh("bash /tmp/plantdemo/demo.sh")
    out = [i, p, "clean demo %d" % clean.returncode]
    if clean.returncode: print(clean.stdout[-1500:], clean.stderr[-1500:])
    try:
        r = sh(f"git apply {d}/patch.diff")
        if r.returncode: out.append("DOES NOT APPLY")
        out.append(stable())
        r = sh("bash /tmp/plantdemo/demo.sh"); out.append("patched demo %d %s" % (r.returncode, (r.stdout + r.stderr).strip()[-150:]))
        r = subprocess.run(f"python3 check.py {p}", shell=True, capture_output=True, text=True, cwd=V)
        m = re.findall(r"^FAILED.*|^VIOLATION.*", r.stdout, re.M)
        out.append("check rc %d %s" % (r.returncode, m[:1]))
    finally:
        sh("git checkout -- .")
    stable()
    print(" | ".join(out), flush=True)
    f = f"{V}/tools/caught.json"; j = json.load(open(f)) if os.path.exists(f) else {}
    j[i] = {"rc": r.returncode, "by": (m[:1] or [""])[0][:100]}
    json.dump(j, open(f, "w"), indent=1, sort_keys=True)
if sys.argv[1] == "--make": make(sys.argv[2], sys.argv[3])
else:
    for a in sys.argv[1:]: confirm(os.path.basename(a.rstrip("/")))
