#!/usr/bin/env python3
"""tools/mkseed.py SPEC.py: builds seeded/<id> from a spec, and confirms it in the scratch copy /tmp/sc.
SPEC defines id, property, needs, breaks, edits = [(file, old, new)...], demo (main.rs text)"""
import sys, os, subprocess, json, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = "/tmp/sc"
def sh(c, cwd=SC, t=600):
    return subprocess.run(["bash", "-c", c], cwd=cwd, capture_output=True, text=True, timeout=t)
for spec in sys.argv[1:]:
    s = {}
    exec(open(spec).read(), s)
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD")
    for f, old, new in s["edits"]:
        p = f"{SC}/{f}"
        t = open(p).read()
        assert t.count(old) == 1, (spec, f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    d = f"{ROOT}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(sh("git diff").stdout)
    open(d + "/main.rs", "w").write(s["demo"])
    shutil.copy(f"{ROOT}/tools/demo.sh", d + "/demo.sh")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    r = sh(". /opt/vp/env.sh; cargo nextest run --workspace --no-fail-fast --offline --test-threads 8 -E 'not (binary_id(hnsw_rs) and test(/^hnswio::tests::/))' 2>&1")
    tests = [l for l in r.stdout.splitlines() if "Summary" in l or "FAIL" in l or l.startswith("error")]
    a = sh(f"bash {d}/demo.sh")
    sh("git checkout -q -- .")
    b = sh(f"bash {d}/demo.sh")
    ok = r.returncode == 0 and a.returncode not in (0, 3) and b.returncode == 0
    print("OK " if ok else "BAD", s["id"], s["property"], tests, "patched:", a.returncode, a.stdout[-300:].strip(), a.stderr[-200:].strip(), "| clean:", b.returncode, b.stdout[-200:].strip() + b.stderr[-200:].strip())
