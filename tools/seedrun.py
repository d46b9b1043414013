#!/usr/bin/env python3
"""seedrun.py [ID..]: run the property's check against each planted bug (in a scratch clone of /repo) -> tools/caught.json"""
import sys, os, json, glob, subprocess, re, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedw/chk"
C = V + "/tools/caught.json"
c = json.load(open(C)) if os.path.exists(C) else {}
ids = sys.argv[1:] or sorted(os.path.basename(os.path.dirname(x)) for x in glob.glob(V + "/seeded/*/meta.json"))
if not os.path.isdir(W): os.makedirs("/tmp/seedw", exist_ok=True); subprocess.check_call(["git", "clone", "-q", "/repo", W])
for i in ids:
    subprocess.check_call("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", shell=True, cwd=W)
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    subprocess.check_call(["git", "apply", V + "/seeded/%s/patch.diff" % i], cwd=W)
    p = subprocess.run(["python3-vt", "engine/check.py", m["property"]], cwd=V, env=dict(os.environ, VERIF_REPO=W), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    f = re.findall(r"^failed: (.*?) \[", p.stdout, re.M)
    vi = re.search(r"^VIOLATION.*$", p.stdout, re.M)
    if p.returncode == 1 and vi: r = "%s: obligation %s%s" % (m["property"], ", ".join(dict.fromkeys(f[:3])), " (no input)" if "no-failing" in vi.group(0) else " (replayed)")
    else: r = "MISSED (rc %d): %s" % (p.returncode, " ".join(re.findall(r"^UNDECIDED.*$", p.stdout, re.M)[:2])[:200])
    c[i] = r; print(i, "->", r, flush=True)
    json.dump(c, open(C, "w"), indent=1, sort_keys=True)
