#!/usr/bin/env python3
"""Plants bugs: plant.py SPEC [--keep] [ID...]

SPEC lists bugs as blocks (see parse).  Each is applied to a scratch copy of /repo, built,
taken through the tests, its demonstration run with and without it, and the check of its
property run on it.  With --keep the ones that qualify are written to /verif/seeded/ID."""
import os, re, subprocess, sys, json, shutil, tempfile, concurrent.futures
BASE = "f5b06d5"
ROOT = os.environ.get("VERIF_ROOT", "/verif")
env = dict(os.environ)
for l in subprocess.run("env -i bash -c '. /opt/vp/env.sh; env'", shell=True, capture_output=True, text=True).stdout.splitlines():
    k, _, v = l.partition("=")
    if k not in ("PWD", "SHLVL", "_"):
        env[k] = v
env["GOSUMDB"] = "off"

def parse(text):
    bugs = []
    for block in re.split(r"(?m)^#### ", text)[1:]:
        head, _, rest = block.partition("\n")
        b = dict(id=head.strip(), edits=[], imports="")
        m = re.split(r"(?m)^(property|needs|breaks|imports|file|demo):[ ]?", rest)
        cur = None
        for k, v in zip(m[1::2], m[2::2]):
            if k == "file":
                f, _, body = v.partition("\n")
                for e in re.findall(r"(?s)<<<<\n(.*?)\n====\n(.*?)\n?>>>>", body):
                    b["edits"].append((f.strip(), e[0], e[1]))
            elif k == "demo":
                b["demo"] = v
            else:
                b[k] = v.strip()
        bugs.append(b)
    return bugs

DEMO = '''package readability_test

import (
	"fmt"
	"strings"
	"testing"
%s
	readability "github.com/giulianopz/go-readability"
)

var _ = fmt.Sprint
var _ = strings.Repeat

const demoURI = "http://h.example/dir/page.html"

// prose is n paragraphs of an ordinary article.
func prose(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "<p>%%s Number %%d.</p>", strings.Repeat("The river runs under the old bridge, past the market, and on to the north. ", 3), i)
	}
	return b.String()
}

func read(t *testing.T, src string, opts ...readability.Option) *readability.Result {
	t.Helper()
	r, err := readability.New(src, demoURI, opts...)
	if err != nil {
		t.Fatal(err)
	}
	res, err := r.Parse()
	if err != nil {
		t.Fatal(err)
	}
	return res
}

func page(body string) string {
	return "<html><head><title>Quite an ordinary page title of some words</title></head><body>" + body + "</body></html>"
}

var _ = page
var _ = read
var _ = prose

func TestZZDemo(t *testing.T) {
%s
}
'''
SH = '''#!/bin/bash
# Exit 0 if the property holds on the demonstrated input, 1 if not.
here=$(cd "$(dirname "$0")" && pwd)
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$PWD/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}" > "$t/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$t/overlay.json" -run '^TestZZDemo$' .
'''

def sh(cmd, cwd, timeout=900, e=None):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e or env, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def plant(b, keep, tier="quick"):
    top = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    out = []
    try:
        repo = top + "/repo"
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        for f, old, new in b["edits"]:
            s = open(f"{repo}/{f}").read()
            if s.count(old) != 1:
                return b["id"], f"EDIT does not apply ({s.count(old)} matches): {old[:80]!r}"
            open(f"{repo}/{f}", "w").write(s.replace(old, new))
        rc, o = sh("gofmt -l . && go build ./...", repo)
        if rc:
            return b["id"], "BUILD fails: " + o[-800:]
        if o.strip():
            out.append("gofmt:" + o.strip())
        patch = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
        # lines that are removed must be of the original
        orig = {f: set(subprocess.run(["git", "show", f"{BASE}:{f}"], cwd=repo, capture_output=True, text=True).stdout.split("\n")) for f in {e[0] for e in b["edits"]}}
        cur = None
        removed = []
        for l in patch.splitlines():
            if l.startswith("--- a/"):
                cur = l[6:]
            elif l.startswith("-") and not l.startswith("---"):
                removed.append(l[1:] in orig[cur])
        if not any(removed):
            out.append("NO-ORIGINAL-LINE")
        elif not all(removed):
            out.append("some removed lines are not original")
        rc, o = sh("go test -vet=off -count=1 ./...", repo)
        if rc:
            fails = re.findall(r"--- FAIL: (\S+)", o)
            return b["id"], "TESTS fail: " + " ".join(fails[:6]) + ("" if fails else o[-500:])
        d = top + "/demo"
        os.makedirs(d)
        imports = "".join(f'\t"{i}"\n' for i in b["imports"].split())
        open(d + "/demo_test.go", "w").write(DEMO % (imports, b["demo"].rstrip()))
        sh(["gofmt", "-w", d + "/demo_test.go"], d)
        open(d + "/demo.sh", "w").write(SH)
        rc1, o1 = sh(["bash", d + "/demo.sh"], "/repo")
        rc2, o2 = sh(["bash", d + "/demo.sh"], repo)
        draft = "t.Skip(" in b["demo"]
        if draft:
            out.append("no demonstration yet")
        elif rc1 != 0 or rc2 == 0:
            return b["id"], f"DEMO: {rc1} without, {rc2} with the change\n{o1[-1500:] if rc1 else o2[-500:]}"
        if "build failed" in o2:
            return b["id"], "DEMO does not build: " + o2[-800:]
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        open(d + "/patch.diff", "w").write(patch)
        if keep and not draft:
            dst = f"{ROOT}/seeded/{b['id']}"
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(d, dst)
        # the check
        h = top + "/h"
        os.makedirs(h)
        for f in ("go.mod", "go.sum"):
            open(f"{h}/{f}", "w").write(open(f"{ROOT}/harness/{f}").read().replace("=> /repo", "=> " + repo))
        e = dict(env, GOFLAGS="-mod=mod", VERIF_DIR=top + "/v", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
        os.makedirs(top + "/v")
        if os.path.isdir(ROOT + "/corpus") and not os.environ.get("NOCORPUS"):
            os.symlink(ROOT + "/corpus", top + "/v/corpus")
        rc, o = sh(f"go build -modfile={h}/go.mod -o {top}/harness .", ROOT + "/harness", e=e)
        if rc:
            return b["id"], "HARNESS: " + o[-800:]
        ps = b["property"]
        if ps == "C02":
            sh(f"go build -race -modfile={h}/go.mod -o {top}/race .", ROOT + "/harness", e=e)
            e["VERIF_RACE"] = top + "/race"
        if ps == "C22":
            sh(f"go build -o {top}/cli ./cmd/readability", repo)
            e["VERIF_CLI"] = top + "/cli"
        rc, o = sh([top + "/harness", "run", ps, tier], top, e=e, timeout=1800)
        msg = o.strip().splitlines()
        out.append({0: "MISSED", 1: "caught"}.get(rc, f"status {rc}"))
        out.append((msg[0][:230] + (" " + msg[1][:1500] if draft and len(msg) > 1 else "") if rc else "") if msg else "")
        return b["id"], " | ".join(out)
    finally:
        shutil.rmtree(top, ignore_errors=True)

if __name__ == "__main__":
    args = sys.argv[1:]
    keep = "--keep" in args
    args = [a for a in args if a != "--keep"]
    bugs = parse(open(args[0]).read())
    if args[1:]:
        bugs = [b for b in bugs if b["id"] in args[1:] or b["property"] in args[1:]]
    for b in bugs:
        i, r = plant(b, keep)
        print(f"{i} [{b['property']}]: {r}", flush=True)
