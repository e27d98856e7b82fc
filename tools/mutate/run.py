#!/usr/bin/env python3
"""run.py OUT.jsonl [FILE-PREFIX...]: a campaign of small syntactic changes to
the library (gen.go.txt). Each one that compiles and passes the existing tests is
given to the monitors (in a copy, with a fiftieth of the random cases); what
nothing reports is listed for a look by hand. A development aid."""
import json, os, re, glob, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("MUT_WORK", "/tmp/mut")
JOBS = int(os.environ.get("JOBS", "4"))
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOPROXY="off",
           GOFLAGS="-mod=mod", GOWORK="off", HOME="/root", VERIF_NO_HUGE="1", GOMAXPROCS="3")
FAST = "01 02 03 04 05 06 07 08 09 15 16 17 19 20 21 24 25 26 28".split()
SLOW = "10 11 12 13 18 14 23".split()
FIRST = {"encodings": "08", "models/bpemodel/mergemap": "21 26", "models/bpemodel/word": "28 16 17", "models/bpemodel/bpe": "16 17",
         "models/wordpiece": "19", "normalizers/bert": "10", "normalizers/strip": "11", "normalizers/lower": "11",
         "normalizers/seq": "11", "pretokenizedstring": "07 08", "pretokenizers/bert": "13", "pretokenizers/byte": "09 14",
         "pretokenizers/meta": "15", "pretokenizers/rune": "12", "pretokenizers/whitespacesplit": "12",
         "pretokenizers/whitespacepre": "13", "splitpattern": "06", "strutils": "25", "vocabulary": "20 21"}

def sh(cmd, cwd, timeout, env=ENV):
    try:
        p = subprocess.run(["bash", "-c", "ulimit -v 12000000; " + cmd], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, start_new_session=True)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def one(m):
    d = tempfile.mkdtemp(prefix="m-", dir=WORK)
    try:
        src = open(os.path.join(REPO, m["file"]), "rb").read()
        new = src[:m["Start"]] + m["New"].encode() + src[m["End"]:]
        f = os.path.join(d, "x.go")
        open(f, "wb").write(new)
        ov = os.path.join(d, "ov.json")
        json.dump({"Replace": {os.path.join(REPO, m["file"]): f}}, open(ov, "w"))
        pkg = "./" + os.path.dirname(m["file"])
        rc, out = sh(f"go build -overlay {ov} {pkg}", REPO, 120)
        if rc: return "uncompilable", ""
        rc, out = sh(f"timeout 60 go test -vet=off -overlay {ov} {pkg}", REPO, 90)
        if rc == 0: rc, out = sh(f"timeout 200 go test -vet=off -overlay {ov} ./...", REPO, 240)
        if rc: return "tests", ""
        rc, out = sh(f"go build -overlay {ov} -o {d}/hb .", WORK + "/h", 200)
        if rc: return "harness-build", out[-300:]
        first = next((v.split() for k, v in FIRST.items() if m["file"].startswith(k)), [])
        slow = SLOW if m["file"].startswith(("norm", "pretokenizers", "split")) else []
        for p in first + [x for x in FAST + slow if x not in first]:
            o = f"{d}/o.json"
            if os.path.exists(o): os.remove(o)
            rc, out = sh(f"timeout -k 5 150 {d}/hb child -prop C{p} -tier quick -seed 1 -out {o}", d, 200)
            if rc == 0 and os.path.exists(o) and "failure" in json.load(open(o)): rc = 1
            if rc: return "C" + p, str(rc)
        return "SURVIVED", ""
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main():
    out, prefixes = sys.argv[1], sys.argv[2:]
    os.makedirs(WORK, exist_ok=True)
    here = os.path.dirname(os.path.abspath(__file__))
    shutil.copy(here + "/gen.go.txt", WORK + "/gen.go")
    subprocess.check_call(["go", "build", "-o", WORK + "/gen", WORK + "/gen.go"], env=dict(ENV, GOFLAGS=""))
    shutil.rmtree(WORK + "/h", ignore_errors=True)
    shutil.copytree(here + "/../../harness", WORK + "/h")
    for f in glob.glob(WORK + "/h/*.go"):
        s = open(f).read()
        s = re.sub(r"Quick: (\d+), Thorough", lambda m: "Quick: %d, Thorough" % max(20, int(m.group(1)) // 50), s)
        open(f, "w").write(s)
    files = [f for f in subprocess.check_output(["git", "ls-files", "*.go"], cwd=REPO).decode().split() if not f.endswith("_test.go")]
    if prefixes: files = [f for f in files if any(f.startswith(p) for p in prefixes)]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            x = json.loads(l); done.add((x["file"], x["Start"], x["End"], x["New"]))
    ms = [json.loads(l) for l in subprocess.check_output([WORK + "/gen"] + files, cwd=REPO).decode().splitlines()]
    ms = [m for m in ms if (m["file"], m["Start"], m["End"], m["New"]) not in done]
    lock = threading.Lock()
    with open(out, "a") as f:
        def work(m):
            m["result"], m["detail"] = one(m)
            with lock:
                f.write(json.dumps(m) + "\n"); f.flush()
        with ThreadPoolExecutor(JOBS) as ex: list(ex.map(work, ms))
main()
