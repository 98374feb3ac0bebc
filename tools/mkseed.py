#!/usr/bin/env python3
"""Makes and confirms a planted bug.
usage: mkseed.py SPEC.py   (SPEC defines id, property, needs, breaks, edits=[(file, old, new)], pkg, test)
The bug is applied in a scratch copy of /repo, built, tested with the stable
tests, and its demonstration is run on both trees. With --check the property's
quick check is run against the bug as well."""
import sys, os, subprocess, json, shutil, tempfile, re
spec = {}
exec(open(sys.argv[1]).read(), spec)
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = f"{here}/seeded/{spec['id']}"
w = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
def sh(c, cwd, **k): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
try:
    r = w + "/repo"
    sh(f"cp -a /repo {r}", "/")
    sh("git checkout -q -- .", r)
    for f, old, new in spec["edits"]:
        p = f"{r}/{f}"; s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    patch = sh("git diff", r).stdout
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(patch)
    meta = {"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}
    json.dump(meta, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo_test.go", "w").write(spec["test"].lstrip())
    open(d + "/demo.sh", "w").write(f'''#!/bin/bash
# Runs demo_test.go inside package {spec["pkg"]} (added with an overlay).
here=$(cd "$(dirname "$0")" && pwd)
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
printf '{{"Replace": {{"%s/{spec["pkg"]}/zz_demo_test.go": "%s/demo_test.go"}}}}' "$PWD" "$here" > "$t/o.json"
TMPDIR=$t timeout 250 go test -overlay "$t/o.json" -count=1 -timeout 200s -run 'TestDemo$' {spec.get("flags","")} ./{spec["pkg"]} > "$t/out" 2>&1
rc=$?
tail -40 "$t/out"
exit $rc
''')
    os.chmod(d + "/demo.sh", 0o755)
    # At least one changed line must be the base commit's
    base = sh("git rev-list --max-parents=0 HEAD", "/repo").stdout.split()[0]
    original = 0; f = None; n = 0
    for l in patch.splitlines():
        if l.startswith("--- a/"): f = l[6:]; continue
        m = re.match(r"@@ -(\d+)", l)
        if m: n = int(m.group(1)); continue
        if f is None or l.startswith("+"): continue
        if l.startswith("-") and not l.startswith("---"):
            q = sh(f"git blame -l -s -L {n},{n} HEAD -- {f}", "/repo").stdout
            t = l[1:].strip()
            if q.lstrip("^")[:39] == base[:39] and t and not t.startswith("//") and t not in "})": original += 1
        n += 1
    b = sh(". /opt/vp/env.sh; go build ./... && go vet ./... >/dev/null 2>&1; go build ./...", r)
    assert b.returncode == 0, b.stderr
    t = sh(". /opt/vp/env.sh; go test ./... 2>&1", r)
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    failing = [n for n in re.findall(r"--- FAIL: (\S+)", t.stdout) if any(q.endswith("/" + n) for q in stable)]
    if "build failed" in t.stdout: failing.append("build")
    if failing: print("EXISTING TESTS FAIL", failing)
    x = sh(d + "/demo.sh", r); y = sh(d + "/demo.sh", "/repo")
    print(spec["id"], "demo: patched", x.returncode, "unpatched", y.returncode)
    if x.returncode == 0: print(x.stdout[-1000:])
    if y.returncode: print(y.stdout[-3000:])
    if not original: print("NO ORIGINAL LINE CHANGED")
    ok = original and not failing and x.returncode != 0 and y.returncode == 0
    if "-v" in sys.argv: print(x.stdout[-1500:])
    print("COUNTS" if ok else "DOES NOT COUNT")
    if "--check" in sys.argv:
        e = dict(os.environ, VERIF_REPO=r)
        c = subprocess.run(f"{here}/check.sh {spec['property']} quick", shell=True, cwd=here, capture_output=True, text=True, env=e)
        print("check exit", c.returncode, "\n".join(c.stdout.splitlines()[-6:])[:1500])
finally:
    shutil.rmtree(w, ignore_errors=True)
