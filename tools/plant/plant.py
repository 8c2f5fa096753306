#!/usr/bin/env python3
"""Developer tool: turns the planted bugs of bugs.py into /verif/seeded/<id>/,
after confirming in a scratch copy of /repo that each builds, passes the stable
tests, and is told apart by its demonstration.   plant.py [id...]"""
import json, os, subprocess, sys, shutil
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from bugs import BUGS
S = "/tmp/plant/repo"
QDEPS = 'smtp-queue = { path = "$root/smtp-queue" }\nfutures01 = { package = "futures", version = "0.1" }\ntokio-executor = "0.1"\ntokio-timer = "0.2"\n'
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("tests") or json.load(open("/opt/vp/BASELINE.json")).get("stable") or [])

def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors="replace", **k)

def main():
    ids = sys.argv[1:] or [b["id"] for b in BUGS]
    os.makedirs("/tmp/plant", exist_ok=True)
    sh("rsync -a --delete /repo/ %s/ 2>/dev/null || (mkdir -p %s && cp -a /repo/. %s/)" % (S, S, S))
    for b in BUGS:
        if b["id"] not in ids:
            continue
        sh("git checkout -q -- . && git clean -fdq", cwd=S)
        for f, old, new in b["edits"]:
            p = os.path.join(S, f)
            t = open(p).read()
            assert t.count(old) == 1, (b["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        d = "/verif/seeded/" + b["id"]
        os.makedirs(d, exist_ok=True)
        diff = sh("git diff", cwd=S).stdout
        open(d + "/patch.diff", "w").write(diff)
        r = sh("RUSTUP_TOOLCHAIN=stable CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only cargo test --offline --workspace --exclude smtp-server-fuzz --no-fail-fast 2>&1", cwd=S)
        fails = [l for l in r.stdout.split("\n") if "FAILED" in l or l.startswith("error")]
        passed = sum(int(l.split("ok. ")[1].split()[0]) for l in r.stdout.split("\n") if l.startswith("test result: ok. "))
        for n in ("demo.rs", "sess.rs"):
            pass
        main = b["demo"]
        open(d + "/main.rs", "w").write(main)
        if "mod sess" in main:
            shutil.copy(H + "/sess.rs", d + "/sess.rs")
        queue = "mod qu;" in main
        if queue:
            shutil.copy(H + "/qu.rs", d + "/qu.rs")
        shutil.copy("/repo/Cargo.lock", d + "/Cargo.lock")
        t = open(H + "/demo.sh.in").read().replace("@ID@", b["id"]).replace("@DEPS@", QDEPS if queue else b.get("deps", ""))
        # the trait a storage needs is exported only to those who ask for it
        t = t.replace("@ENV@", 'RUSTFLAGS="--cfg yuubind_verif" ' if queue else "")
        open(d + "/demo.sh", "w").write(t)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        x = sh("bash %s/demo.sh" % d, cwd=S)
        y = sh("bash %s/demo.sh" % d, cwd="/repo")
        ok = not fails and x.returncode not in (0, 3) and y.returncode == 0
        print("%-26s %s %s tests passed %d %s demo: patched %d clean %d" % (b["id"], b["property"], "ok  " if ok else "BAD ", passed, fails[:4], x.returncode, y.returncode), flush=True)
        if not ok:
            print("   patched:", x.stdout[-600:].replace("\n", "\n      "))
            print("   clean:", y.stdout[-600:].replace("\n", "\n      "))
    sh("git checkout -q -- .", cwd=S)
main()
