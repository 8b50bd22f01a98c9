"""Builds and confirms planted bugs.  Usage: python3 lib/seeds.py [ID...]

For each seed: applies the edits to a scratch copy of /repo, checks that the
changed lines are original ones, that everything builds, that the stable tests
pass and that the demonstration passes without and fails with the change, then
writes seeded/<id>/ and runs the property's check on the changed copy."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
ORIG = "9302c61"

DEMO = r'''#!/bin/bash
# Runs demo_test.go inside the package it demonstrates; cwd is /repo.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d /tmp/demo-XXXXXX) || exit 3
trap 'rm -rf "$w"' EXIT
export HOME=/root PATH=/opt/veriftools/go1.25.14/bin:$PATH
unset GOROOT GOFLAGS
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOWORK=off GOENV=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
cp go.mod "$w/typast.mod"; cp go.sum "$w/typast.sum"
go mod edit -replace=github.com/mewmew/mathclass=/opt/vp/standin/mathclass "$w/typast.mod" || exit 3
export GOFLAGS="-mod=mod -modfile=$w/typast.mod"
export DEMO_SCRATCH="$w"
echo "{\"Replace\":{\"$repo/@PKG@/zz_demo_test.go\":\"$here/demo_test.go\"}}" > "$w/ov.json"
timeout 250 go test -vet=off -count=1 @FLAGS@ -overlay "$w/ov.json" -run '^TestDemo$' ./@PKG@
'''


def env():
    e = dict(os.environ)
    for k in ("GOROOT", "GOFLAGS", "GOWORK"):
        e.pop(k, None)
    e.update(HOME="/root", PATH="/opt/veriftools/go1.25.14/bin:" + e["PATH"], GOTOOLCHAIN="local", GOSUMDB="off",
             GOPROXY="off", GOWORK="off", GOENV="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE="/root/.cache/go-build")
    return e


def stable(copy, e):
    mod = "/tmp/seedmod/typast.mod"
    os.makedirs("/tmp/seedmod", exist_ok=True)
    shutil.copy(copy + "/go.mod", mod); shutil.copy(copy + "/go.sum", "/tmp/seedmod/typast.sum")
    subprocess.run(["go", "mod", "edit", "-replace=github.com/mewmew/mathclass=/opt/vp/standin/mathclass", mod], env=e, check=True)
    e = dict(e, GOFLAGS="-mod=mod -modfile=" + mod)
    r = subprocess.run(["go", "build", "./..."], cwd=copy, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return "build: " + r.stdout[-800:]
    r = subprocess.run(["go", "test", "-json", "-vet=off", "-count=1", "./..."], cwd=copy, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = set()
    for l in r.stdout.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("Action") == "pass" and d.get("Test"):
            ok.add(d["Package"] + "/" + d["Test"])
    miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - ok
    return "tests: %s" % sorted(miss) if miss else None


def original_lines(f, edits):
    out = subprocess.run(["git", "-C", REPO, "blame", "-s", "-l", f], stdout=subprocess.PIPE, text=True).stdout.splitlines()
    orig = subprocess.run(["git", "-C", REPO, "rev-parse", ORIG], stdout=subprocess.PIPE, text=True).stdout.strip()
    shas = subprocess.run(["git", "-C", REPO, "rev-list", ORIG], stdout=subprocess.PIPE, text=True).stdout.split()
    texts = {}
    for l in out:
        m = re.match(r"(\^?[0-9a-f]+) +(?:\S+ +)?\d+\) ?(.*)$", l)
        sha = m.group(1).lstrip("^")
        texts.setdefault(m.group(2), set()).add(any(s.startswith(sha) for s in shas))
    return texts


def go(seeds, only):
    e = env()
    bad = []
    summary = []
    for s in seeds:
        if only and s["id"] not in only:
            continue
        copy = "/tmp/seedrepo"
        shutil.rmtree(copy, ignore_errors=True)
        subprocess.run(["cp", "-a", REPO, copy], check=True)
        for f, old, new in s["edits"]:
            t = open(copy + "/" + f).read()
            if t.count(old) != 1:
                print(s["id"], "BAD: pattern occurs", t.count(old)); bad.append(s["id"]); break
            open(copy + "/" + f, "w").write(t.replace(old, new))
        else:
            diff = subprocess.run(["git", "-C", copy, "diff"], stdout=subprocess.PIPE, text=True).stdout
            f = None
            for l in diff.splitlines():
                if l.startswith("--- a/"):
                    f = l[6:]; texts = original_lines(f, None)
                elif l.startswith("-") and not l.startswith("---"):
                    if True not in texts.get(l[1:], {False}):
                        print(s["id"], "WARN: line not original:", l)
            err = stable(copy, e)
            if err:
                print(s["id"], "BAD", err); bad.append(s["id"]); continue
            d = os.path.join(V, "seeded", s["id"])
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(d + "/patch.diff", "w").write(diff)
            pkg = s.get("pkg", "typst/syntax")
            open(d + "/demo.sh", "w").write(DEMO.replace("@PKG@", pkg).replace("@FLAGS@", s.get("flags", "")))
            os.chmod(d + "/demo.sh", 0o755)
            open(d + "/demo_test.go", "w").write(s["demo"].strip() + "\n")
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            r0 = subprocess.run(["bash", d + "/demo.sh"], cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=copy, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r0.returncode != 0 or r1.returncode == 0 or "build failed" in r1.stdout:
                print(s["id"], "BAD demo", r0.returncode, r0.stdout[-1500:], r1.returncode, r1.stdout[-600:]); bad.append(s["id"]); continue
            r = subprocess.run([V + "/check", s["property"]], env=dict(os.environ, VF_REPO=copy), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            res = "caught" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode
            print(s["id"], s["property"], res, flush=True)
            summary.append((s["id"], s["property"], res))
    shutil.rmtree("/tmp/seedrepo", ignore_errors=True); shutil.rmtree("/tmp/seedmod", ignore_errors=True)
    print("bad:", bad)
