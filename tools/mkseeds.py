#!/usr/bin/env python3
"""mkseeds.py SPEC.py [id...]: makes /verif/seeded/<id> from SEEDS in SPEC.py (dicts: id, property, pkg, edits [(file, old, new)], demo, needs, breaks)
and confirms each one in a scratch copy of /repo: builds, passes the stable tests, the demo passes without it and fails with it."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
DEMO = '''#!/bin/bash
# exit 0: the property holds for the demonstrated case. Runs in the repository's directory.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%s/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}" > "$tmp/overlay.json"
go test -vet=off -count=1 -timeout 200s -overlay "$tmp/overlay.json" -run 'TestDemo' ./%s
'''
def sh(cmd, cwd, timeout=400):
    r = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return r.returncode, r.stdout

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    mod = "github.com/flachnetz/dd-zipkin-proxy"
    bad = 0
    for s in ns["SEEDS"]:
        if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
            continue
        tmp = tempfile.mkdtemp(prefix="seed")
        repo = tmp + "/repo"
        out = f"{ROOT}/seeded/{s['id']}"
        try:
            subprocess.check_call(["cp", "-a", "/repo", repo])
            sh(["git", "checkout", "-q", "--", "."], repo)
            os.makedirs(out, exist_ok=True)
            open(out + "/demo_test.go", "w").write(s["demo"].lstrip())
            open(out + "/demo.sh", "w").write(DEMO % (s["pkg"], s["pkg"]))
            os.chmod(out + "/demo.sh", 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
            msgs = []
            rc, o = sh(["bash", out + "/demo.sh"], repo)
            if rc != 0:
                msgs.append("demo fails without the change:\n" + o)
            for f, old, new in s["edits"]:
                t = open(f"{repo}/{f}").read()
                if t.count(old) != 1:
                    msgs.append(f"{f}: {t.count(old)} matches of {old!r}")
                    continue
                open(f"{repo}/{f}", "w").write(t.replace(old, new))
            rc, d = sh(["git", "diff"], repo)
            open(out + "/patch.diff", "w").write(d)
            rc, o = sh(["go", "build", "./..."], repo)
            if rc != 0:
                msgs.append("does not build:\n" + o)
            else:
                rc, o = sh(["go", "test", "-json", "-vet=off", "-count=1", "./..."], repo)
                passed = set()
                for l in o.splitlines():
                    try:
                        e = json.loads(l)
                    except ValueError:
                        continue
                    if e.get("Action") == "pass" and e.get("Test"):
                        passed.add(e["Package"].replace(mod, mod) + "/" + e["Test"])
                if stable - passed:
                    msgs.append("tests fail: " + ", ".join(sorted(stable - passed)))
                rc, o = sh(["bash", out + "/demo.sh"], repo)
                if rc == 0:
                    msgs.append("demo passes with the change")
                elif "--- FAIL" not in o and "panic:" not in o and "fatal error" not in o and "DATA RACE" not in o:
                    msgs.append("demo does not run:\n" + o[:2000])
            print(s["id"], "ok" if not msgs else "BAD " + "\n".join(msgs), flush=True)
            if msgs:
                bad += 1
                shutil.rmtree(out)
        finally:
            shutil.rmtree(tmp)
    sys.exit(1 if bad else 0)
main()
