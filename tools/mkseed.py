#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID...]: turns specifications of planted bugs into
/verif/seeded/<id>, after confirming each in a scratch copy of /repo.

SPEC.py defines SEEDS, a list of dictionaries: id, property, needs, breaks,
edits [(file, old, new)...], demo (body of a Go program), race (optional).
"""
import json, os, re, shutil, subprocess, sys, tempfile, textwrap
from concurrent.futures import ThreadPoolExecutor

ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"],
           GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", HOME="/root")
BASE = "ba4ea92"
SEEDED = "/verif/seeded"

DEMO_SH = '''#!/bin/bash
# Runs the program beside this file against the library in the current
# directory: 0 if the property holds in it, another code if not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here/main.go.txt" "$tmp/main.go"
cp "$repo/go.sum" "$tmp/go.sum"
cat >"$tmp/go.mod" <<EOF
module demo

go 1.14

require (
	github.com/dlclark/regexp2 v1.4.0
	github.com/nlpodyssey/gotokenizers v0.0.0
)

replace github.com/nlpodyssey/gotokenizers => $repo
EOF
cd "$tmp" || exit 2
go build @RACE@-o demo . || exit 3
timeout 200 ./demo
'''

PKGS = {p.split("/")[-1]: p for p in """encodings models models/bpemodel models/wordpiecemodel
normalizedstring normalizers normalizers/bertnormalizer normalizers/lowercasenormalizer
normalizers/sequencenormalizer normalizers/stripnormalizer pretokenizedstring pretokenizers
pretokenizers/bertpretokenizer pretokenizers/bytelevelpretokenizer pretokenizers/metaspacepretokenizer
pretokenizers/runedelimiterpretokenizer pretokenizers/whitespacepretokenizer
pretokenizers/whitespacesplitpretokenizer splitpattern strutils vocabulary""".split()}
STD = {"fmt": "fmt", "os": "os", "sync": "sync", "strings": "strings", "reflect": "reflect", "unicode": "unicode",
       "utf8": "unicode/utf8", "regexp": "regexp", "errors": "errors", "filepath": "path/filepath",
       "ioutil": "io/ioutil", "runtime": "runtime", "time": "time", "atomic": "sync/atomic", "rand": "math/rand",
       "sort": "sort", "unsafe": "unsafe"}


def program(body):
    body = textwrap.dedent(body).strip("\n") + "\n"
    body += '''
func expect(what string, got, want interface{}) {
	if g, w := fmt.Sprintf("%+v", got), fmt.Sprintf("%+v", want); g != w {
		fmt.Printf("%s: got %s, want %s\\n", what, g, w)
		os.Exit(1)
	}
}
'''
    imports = set(["fmt", "os"])
    for name in sorted(set(re.findall(r"\b([a-z][a-z0-9]*)\.[A-Z]", body))):
        if name in PKGS:
            imports.add("github.com/nlpodyssey/gotokenizers/" + PKGS[name])
        elif name == "regexp2":
            imports.add("github.com/dlclark/regexp2")
        elif name in STD:
            imports.add(STD[name])
    return "package main\n\nimport (\n" + "".join('\t"%s"\n' % i for i in sorted(imports)) + ")\n\n" + body


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def make(spec):
    sid = spec["id"]
    log = []
    tmp = tempfile.mkdtemp(prefix="mkseed-")
    try:
        repo = tmp + "/repo"
        run(["git", "clone", "-q", "/repo", repo], "/")
        out = tmp + "/out"
        os.mkdir(out)
        open(out + "/main.go.txt", "w").write(program(spec["demo"]))
        open(out + "/demo.sh", "w").write(DEMO_SH.replace("@RACE@", "-race " if spec.get("race") else ""))
        os.chmod(out + "/demo.sh", 0o755)
        r = run(["gofmt", "-l", out], "/")
        run(["bash", "-c", "cp main.go.txt x.go && gofmt -w x.go && mv x.go main.go.txt"], out)
        r = run([out + "/demo.sh"], repo)
        if r.returncode != 0:
            return sid, "demo fails on the unchanged tree:\n" + r.stdout
        base_touched = False
        for f, old, new in spec["edits"]:
            p = repo + "/" + f
            s = open(p).read()
            if s.count(old) != 1:
                return sid, "%s: %d occurrences of %r" % (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        r = run(["gofmt", "-l", "."], repo)
        run(["gofmt", "-w"] + sorted(set(f for f, _, _ in spec["edits"] if f != "normalizedstring/normalizedstring.go")), repo) if all(
            f != "normalizedstring/normalizedstring.go" for f, _, _ in spec["edits"]) else None
        diff = run(["git", "diff"], repo).stdout
        f = None
        for line in diff.splitlines():
            if line.startswith("--- a/"):
                f = line[6:]
                base = run(["git", "show", BASE + ":" + f], repo).stdout.splitlines()
            elif line.startswith("-") and len(line.strip()) > 3 and line[1:] in base:
                base_touched = True
        if not base_touched:
            return sid, "no original line changed"
        r = run(["go", "vet", "./..."], repo)
        r = run(["go", "build", "./..."], repo)
        if r.returncode:
            return sid, "does not build\n" + r.stdout
        r = run(["go", "test", "-json", "-vet=off", "-count=1", "./..."], repo)
        passed = set()
        for line in r.stdout.splitlines():
            try:
                e = json.loads(line)
            except ValueError:
                continue
            if e.get("Action") == "pass" and e.get("Test"):
                passed.add(e["Package"] + "/" + e["Test"])
        missing = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - passed
        if missing:
            return sid, "existing tests fail: " + " ".join(sorted(missing))
        r = run([out + "/demo.sh"], repo)
        if r.returncode in (0, 3) or r.returncode == 2 and "panic:" not in r.stdout:
            return sid, "demo exits %d with the change:\n%s" % (r.returncode, r.stdout)
        msg = r.stdout[-300:]
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
                  open(out + "/meta.json", "w"), indent=2, ensure_ascii=False)
        dst = SEEDED + "/" + sid
        if os.path.isdir(dst):
            shutil.rmtree(dst)
        shutil.copytree(out, dst)
        return sid, "OK (%s)" % msg.strip().splitlines()[0] if msg.strip() else "OK"
    finally:
        shutil.rmtree(tmp)


ns = {}
exec(open(sys.argv[1]).read(), ns)
todo = [s for s in ns["SEEDS"] if not sys.argv[2:] or s["id"] in sys.argv[2:]]
os.makedirs(SEEDED, exist_ok=True)
with ThreadPoolExecutor(6) as ex:
    for sid, msg in ex.map(make, todo):
        print(sid + ":", msg, flush=True)
