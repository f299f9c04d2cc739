#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: write planted bugs to /verif/seeded and validate them in a scratch copy of /repo.

SPEC.py defines BUGS = [dict(id, prop, pkg, edits=[(file, old, new)...], demo="go test source body",
needs, breaks, files={name: text} (optional), race=bool (optional))].
With CHECK=1 in the environment, also run the property's check against the change (in copies made by copy.sh)."""
import json, os, shutil, subprocess, sys, importlib.util

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = HERE + "/seeded"
COPY = "/tmp/plant-copy"
SCRATCH = "/tmp/plant-repo"
DEMO = '''#!/bin/bash
# Run with cwd = the repository's root. Exit 0: the property holds in this demonstration; nonzero: it is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME="${HOME:-/root}"
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off
tmp=$(mktemp -d)
cp go.mod "$tmp/m.mod" && cp go.sum "$tmp/m.sum" || exit 2
export GOFLAGS="-mod=mod -modfile=$tmp/m.mod"
{
	printf '{"Replace":{"%s/PKG/zz_demo_test.go":"%s/demo_test.go"' "$repo" "$here"
	for f in server.go more.go minilua/lua.go minilua/more.go; do
		[ -f "$here/zzredis/$f" ] && printf ',"%s/zzredis/%s":"%s/zzredis/%s"' "$repo" "$f" "$here" "$f"
	done
	printf '}}'
} > "$tmp/o.json"
go test RACE-vet=off -count=1 -timeout 120s -overlay "$tmp/o.json" -run '^TestZZDemo' ./PKG
rc=$?
rm -f "$tmp/m.mod" "$tmp/m.sum" "$tmp/o.json"; rmdir "$tmp"
exit $rc
'''

def sh(cmd, cwd=SCRATCH, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off",
           GO111MODULE="on", GOWORK="off", GOFLAGS="-mod=mod -modfile=/tmp/plant-mod/gears.mod")
ENV.pop("INTEGRATION_TEST", None)

def stable(tag):
    sh("go test -json -vet=off -count=1 -p 1 -timeout 10m ./... > /tmp/plant-test.json", env=ENV)
    sh(f"python3 /opt/vp/results.py /tmp/plant-out.json gojson:/tmp/plant-test.json")
    out = json.load(open("/tmp/plant-out.json"))
    want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [t for t in want if t not in set(out["passed"])]

def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1])
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only = set(sys.argv[2:])
    shutil.rmtree(SCRATCH, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", SCRATCH], check=True)
    os.makedirs("/tmp/plant-mod", exist_ok=True)
    shutil.copy(SCRATCH + "/go.mod", "/tmp/plant-mod/gears.mod"); shutil.copy(SCRATCH + "/go.sum", "/tmp/plant-mod/gears.sum")
    sh("git checkout -q -- .")
    if os.environ.get("CHECK"):
        shutil.rmtree(COPY, ignore_errors=True)
        subprocess.run([HERE + "/tools/copy.sh", COPY], check=True)
    for b in m.BUGS:
        if only and b["id"] not in only: continue
        d = f"{SEEDED}/{b['id']}"
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.sh", "w").write(DEMO.replace("PKG", b["pkg"]).replace("RACE", "-race " if b.get("race") else ""))
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo_test.go", "w").write(b["demo"].lstrip())
        if b.get("redis"):
            os.makedirs(d + "/zzredis/minilua", exist_ok=True)
            for f in ("server.go", "more.go", "minilua/lua.go", "minilua/more.go"):
                open(d + "/zzredis/" + f, "w").write("//go:build go1.21\n\n" + open(HERE + "/redistub/" + f).read().replace("gearsverif/redistub", "github.com/chanjarster/gears/zzredis"))
        for n, t in b.get("files", {}).items(): open(f"{d}/{n}", "w").write(t)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        res = []
        r = sh(f"{d}/demo.sh")
        if r.returncode: res.append("DEMO FAILS ON CLEAN:\n" + r.stdout[-1500:])
        ok = True
        for f, old, new in b["edits"]:
            s = open(f"{SCRATCH}/{f}").read()
            if s.count(old) != 1:
                res.append(f"edit in {f}: {s.count(old)} occurrences of {old[:50]!r}"); ok = False; break
            open(f"{SCRATCH}/{f}", "w").write(s.replace(old, new))
        if ok:
            sh("gofmt -l . > /tmp/plant-fmt")
            diff = sh("git diff").stdout
            open(d + "/patch.diff", "w").write(diff)
            r = sh("go build ./...", env=ENV)
            if r.returncode: res.append("BUILD: " + r.stdout[-1500:])
            else:
                r = sh(f"{d}/demo.sh")
                if r.returncode == 0: res.append("DEMO PASSES WITH PATCH")
                elif "panic" in r.stdout or "FAIL" in r.stdout: pass
                else: res.append("demo odd: " + r.stdout[-800:])
                if os.environ.get("SHOW"): print(r.stdout[-600:])
                bad = stable(b["id"])
                if bad: res.append("TESTS FAIL: " + str(bad[:5]))
        sh("git checkout -q -- .")
        if ok and os.environ.get("CHECK"):
            a = sh(f"git apply {d}/patch.diff", cwd=COPY + "/repo")
            if a.returncode: res.append("apply: " + a.stdout)
            else:
                r = sh(f"./check.sh {b['prop']} 2>&1 | tail -3 | cut -c1-300", cwd=COPY + "/verif")
                hit = "VIOLATION property=" + b["prop"] in r.stdout
                res.append(("CAUGHT " if hit else "MISSED ") + ("" if hit else r.stdout))
                sh("git checkout -q -- .", cwd=COPY + "/repo")
        print(b["id"], b["prop"], "; ".join(res) or "ok", flush=True)
        if any(x.split(":")[0].isupper() and not x.startswith("CAUGHT") and not x.startswith("MISSED") for x in res):
            print("   ^ not valid")
    shutil.rmtree(SCRATCH, ignore_errors=True)
    shutil.rmtree(COPY, ignore_errors=True)
main()
