#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough      decide a property of /repo's current tree
   check.py --replay FILE               run a recorded counterexample natively

Builds the engine, the LLVM IR of the harness linked with /repo's crates, and a
native replay binary; lets the engine decide every job of the property;
confirms counterexamples and a sample of explored paths natively.

exit 0 the property held within the bounds, 1 it is broken, 2 no verdict.
"""
import json
import os
import random
import re
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import spec as specs  # noqa: E402
from about import ABOUT, TRUSTED  # noqa: E402

T0 = time.time()
TOTAL = float(os.environ.get("VERIF_TOTAL", "820"))
PROCS = int(os.environ.get("VERIF_PROCS", str(os.cpu_count() or 8)))


def say(s):
    print(s, flush=True)


class Broken(Exception):
    """no verdict"""


# ------------------------------------------------------------------ building

class Harness:
    """one harness crate: where it is, what it gives"""
    def __init__(self, name):
        self.name = name
        self.dir = os.path.join(VERIF, name)
        self.ir = os.path.join(self.dir, "target/sym/deps/%s.ll" % name.replace("-", "_"))
        self.replay = os.path.join(self.dir, "target/native/debug/replay")


def run(cmd, cwd, env=None):
    e = dict(os.environ)
    e.update(env or {})
    e.pop("RUSTFLAGS", None)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors="replace")
    return p.returncode, p.stdout


def build(h):
    tc = {"RUSTUP_TOOLCHAIN": "stable", "CARGO_NET_OFFLINE": "true"}
    todo = [
        ("engine", ["cargo", "build", "--release", "--offline", "-q"], os.path.join(VERIF, "engine"), dict(tc)),
        ("LLVM IR", ["cargo", "rustc", "--offline", "-q", "--profile", "sym", "--lib", "--crate-type", "cdylib", "--", "--emit=llvm-ir"], h.dir, dict(tc)),
        ("native replay", ["cargo", "build", "--offline", "-q", "--features", "native"], h.dir, dict(tc, CARGO_TARGET_DIR=os.path.join(h.dir, "target/native"))),
    ]
    if os.environ.get("VERIF_NOBUILD") == "1":  # development only
        return
    with ThreadPoolExecutor(3) as ex:
        for (what, *_), (rc, out) in zip(todo, ex.map(lambda t: run(t[1], t[2], t[3]), todo)):
            if rc:
                raise Broken("building %s failed:\n%s" % (what, out[-4000:]))
    if not os.path.exists(h.ir):
        raise Broken("no IR at " + h.ir)


# ------------------------------------------------------------------ engine

def engine(h, jobs, tier, tmp):
    jf, out = os.path.join(tmp, "jobs"), os.path.join(tmp, "out")
    with open(jf, "w") as f:
        for j in jobs:
            f.write("%s\t%s\t%s\t%d\n" % (re.sub(r"[\t\n\r]", "_", j.name), j.entry, ",".join(map(str, j.params)), j.tier == "quick"))
    left = TOTAL - (time.time() - T0)
    soft = max(left - 100, 10)
    hard = max(left - 40, 20)
    cmd = "ulimit -s unlimited; exec %s --ir %s --jobs %s --out %s --procs %d --hard %.0f --soft %.0f" % (
        os.path.join(VERIF, "engine/target/release/symex"), h.ir, jf, out, PROCS, hard, soft)
    p = subprocess.run(["bash", "-c", cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors="replace")
    if p.returncode:
        raise Broken("the engine failed: " + p.stdout[-2000:])
    return out, p.stdout


class Job:
    def __init__(self):
        self.done, self.spawned, self.complete, self.paths, self.errors, self.samples = 0, 0, True, 0, [], []
        self.ms = 0

    @property
    def ok(self):
        return self.done > 0 and self.done == 1 + self.spawned and self.complete


def read(out, n):
    tot = {k: 0 for k in ("paths", "assumed", "forks", "steps", "checks", "sym_checks", "xpanics", "queries", "bytewise", "hits", "sat", "unsat", "unknown", "solver_us", "exprs")}
    mx = {"max_steps": 0, "max_pc": 0, "max_query_us": 0}
    jobs = [Job() for _ in range(n)]
    viols, covers, fns, names = [], {}, set(), []
    for l in open(out, errors="replace"):
        d = json.loads(l)
        if d["t"] == "fns":
            names = d["names"]
        elif d["t"] == "viol":
            viols.append(d)
        else:
            j = jobs[d["job"]]
            j.done += 1
            j.spawned += d["spawned"]
            j.complete &= d["complete"]
            j.paths += d["paths"]
            j.errors += d["errors"]
            j.samples += d["samples"]
            j.ms += d["ms"]
            for k in tot:
                tot[k] += d[k]
            for k in mx:
                mx[k] = max(mx[k], d[k])
            covers[d["job"]] = covers.get(d["job"], 0) | int(d["covers"], 16)
            fns.update(d["fns"])
    return tot, mx, jobs, viols, covers, [names[i] for i in sorted(fns)]


def demangle(names):
    try:
        p = subprocess.run(["c++filt"], input="\n".join(names) + "\n", stdout=subprocess.PIPE, universal_newlines=True)
        o = p.stdout.split("\n")[:len(names)]
    except OSError:
        o = names
    return [re.sub(r"::h[0-9a-f]{16}$", "", x) for x in o]


# ------------------------------------------------------------------ native

def native(h, lines, timeout):
    """results of running `lines` natively, one process; None when it ended early"""
    cmd = "ulimit -v 6000000; ulimit -c 0; exec " + h.replay
    try:
        p = subprocess.run(["bash", "-c", cmd], input="\n".join(lines) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           universal_newlines=True, errors="replace", timeout=timeout)
        return p.stdout.split("\n")[:-1], p.returncode, (p.stderr or "")[-300:]
    except subprocess.TimeoutExpired:
        return None, None, "still running after %d s" % timeout


def outcome(h, entry, params, inputs):
    """(violated?, what happened)"""
    r, rc, err = native(h, ["%s\t%s\t%s" % (entry, params, inputs)], 20)
    if r is None:
        return True, "hang: " + err
    if not r:
        return True, "the process ended with status %s %s" % (rc, err)
    x = r[0]
    return x.split(" ")[0] in ("check", "panic", "nopanic"), x


# ------------------------------------------------------------------ findings

def findings(prop):
    """known findings: `finding: property=<id> entry=<e> at=<kind:msg prefix> inputs=<regex> <what fails>`"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) entry=(\S+) at=(\S+) inputs=(\S+) (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


# ------------------------------------------------------------------ main

def check(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    s = specs.PROPS[prop]()
    h = Harness(getattr(s, "harness", "harness"))
    build(h)
    t_build = time.time() - T0
    jobs = [j for j in s.jobs if tier == "thorough" or j.tier == "quick"]
    # what has to be finished comes first
    jobs.sort(key=lambda j: j.tier != "quick")
    pat = os.environ.get("VERIF_ONLY")  # development only
    if pat:
        jobs = [j for j in jobs if pat in j.name]
    tmp = os.path.join(VERIF, "evidence", "tmp-%s-%d" % (prop, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    try:
        out, noise = engine(h, jobs, tier, tmp)
        tot, mx, st, viols, covers, fns = read(out, len(jobs))
    finally:
        for f in ("jobs", "out"):
            try:
                os.remove(os.path.join(tmp, f))
            except OSError:
                pass
        os.rmdir(tmp)
    t_engine = time.time() - T0 - t_build
    problems = []
    # counterexamples, replayed
    known = findings(prop)
    confirmed, seen_known, unconfirmed, sigs = [], set(), [], set()
    order = []
    for v in viols:
        sig = (jobs[v["job"]].entry, v["kind"], v["msg"])
        order.append((sig in sigs, v))
        sigs.add(sig)
    order.sort(key=lambda x: x[0])
    for _, v in order[:40]:
        if len(confirmed) >= 4:
            break
        j = jobs[v["job"]]
        bad, what = outcome(h, j.entry, ",".join(map(str, j.params)), v["inputs"])
        if not bad:
            unconfirmed.append((v, what))
            continue
        k = [f for f in known if f[0] == j.entry and ("%s:%s" % (v["kind"], v["msg"])).startswith(f[1]) and re.fullmatch(f[2], v["inputs"])]
        if k:
            seen_known.add(k[0])
            continue
        confirmed.append((v, j, what))
    for v, what in unconfirmed:
        problems.append("a counterexample of job '%s' (%s %s) does not reproduce natively: %s; inputs %s" % (jobs[v["job"]].name, v["kind"], v["msg"], what, v["inputs"][:300]))
    # everything mandatory finished?
    partial = [i for i, j in enumerate(jobs) if not st[i].ok]
    vjobs = {v["job"] for v in viols}
    for i in partial:
        if jobs[i].tier == "quick" and i not in vjobs and not (viols and not st[i].errors):
            problems.append("job '%s' was not finished%s" % (jobs[i].name, ": " + st[i].errors[0] if st[i].errors else ""))
    for i, j in enumerate(st):
        if j.errors and i not in partial:
            problems.append("job '%s': %s" % (jobs[i].name, j.errors[0]))
    # not vacuous?
    if not pat and not viols:
        for entry, need in s.need.items():
            c = 0
            for i, j in enumerate(jobs):
                if j.entry == entry:
                    c |= covers.get(i, 0)
            for b in need:
                if not c >> b & 1:
                    problems.append("situation %d of %s was never reached" % (b, entry))
    # the engine against the machine
    rnd = random.Random(seed)
    pool = [(i, x) for i, j in enumerate(st) for x in j.samples]
    picked = rnd.sample(pool, min(len(pool), 400 if tier == "quick" else 2000))
    lines, want = [], []
    for i, x in picked:
        a, o, hsh = x.rsplit(" ", 2)
        lines.append("%s\t%s\t%s" % (jobs[i].entry, ",".join(map(str, jobs[i].params)), a))
        o = "xpanic" if o == "panic" else o
        want.append((o, hsh))
    matched = 0
    if lines:
        r, rc, err = native(h, lines, 120)
        if r is None or len(r) != len(lines):
            problems.append("replaying explored paths natively ended early: %s %s" % (rc, err))
        else:
            for x, w, l in zip(r, want, lines):
                if x == "%s %s" % w:
                    matched += 1
                else:
                    problems.append("engine and machine disagree: %s instead of %s %s for %s" % (x, w[0], w[1], l[:300]))
    wall = time.time() - T0
    names = demangle(fns)
    mine = sorted({n for n in names if re.search(r"\bsmtp_(message|server|queue)\b|queue_src", n)})
    done = [i for i in range(len(jobs)) if st[i].ok]
    slow = sorted(range(len(jobs)), key=lambda i: -st[i].ms)[:5]
    a = ABOUT[prop]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["steps"], "traces_validated_against_impl": matched,
            "samples": [l.replace("\t", " ") [:400] for l in lines[:5]],
            "exhaustive": not partial,
            "jobs": len(jobs), "jobs_finished": len(done),
            "jobs_unfinished": [jobs[i].name for i in partial][:50],
            "optional_jobs_unfinished": len([i for i in partial if jobs[i].tier != "quick"]),
            "input_shapes": [jobs[i].name for i in done][:60],
            "slowest_jobs": ["%s: %.1f s of processor time" % (jobs[i].name, st[i].ms / 1e3) for i in slow],
            "bounds": a["bounds"],
            "functions_encoded": mine, "functions_encoded_all": len(names),
            "forks": tot["forks"], "assertions": tot["checks"], "assertions_on_symbolic_values": tot["sym_checks"],
            "paths_outside_the_assumptions": tot["assumed"],
            "longest_path_steps": mx["max_steps"], "longest_path_condition": mx["max_pc"],
            "solver": {"queries": tot["queries"], "sat": tot["sat"], "unsat": tot["unsat"], "unknown": tot["unknown"],
                       "decided_by_byte_tables": tot["bytewise"], "answered_from_cache": tot["hits"],
                       "seconds": round(tot["solver_us"] / 1e6, 2), "longest_query_s": round(mx["max_query_us"] / 1e6, 3)},
            "situations_reached": {e: [b for b in range(128) if sum((covers.get(i, 0) >> b & 1) for i, j in enumerate(jobs) if j.entry == e)] for e in s.need},
            "engine_s": round(t_engine, 1), "build_s": round(t_build, 1),
        },
        "assumptions": a.get("assumptions", []) + TRUSTED,
        "wall_s": round(wall, 1), "violations": len(confirmed),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in sorted(seen_known):
        say("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    say("%s %s: %d/%d jobs, %d paths, %d forks, %d queries (%.1f s), %d byte tables, %d/%d paths replayed natively; build %.0f s, engine %.0f s, wall %.0f s" % (
        prop, tier, len(done), len(jobs), tot["paths"], tot["forks"], tot["queries"], tot["solver_us"] / 1e6, tot["bytewise"], matched, len(lines), t_build, t_engine, wall))
    if confirmed:
        for n, (v, j, what) in enumerate(confirmed):
            p = os.path.join(VERIF, "evidence", "replay-%s-%d.txt" % (prop, n))
            with open(p, "w") as f:
                f.write("property=%s\nharness=%s\nentry=%s\nparams=%s\ninputs=%s\njob=%s\nengine=%s %s\nnative=%s\nstack=%s\n" % (
                    prop, h.name, j.entry, ",".join(map(str, j.params)), v["inputs"], j.name, v["kind"], v["msg"], what, " < ".join(demangle(v["stack"]))))
            say("VIOLATION property=%s replay=%s" % (prop, p))
            say("  %s in %s [%s]: natively %s" % ((v["kind"] + " " + v["msg"]).strip(), j.entry, j.name, what[:200]))
        return 1
    if problems:
        for p in problems[:10]:
            say("no verdict: " + p[:600])
        if noise.strip():
            say(noise[-500:])
        return 2
    return 0


def replay(path):
    d = dict(l.rstrip("\n").split("=", 1) for l in open(path) if "=" in l)
    h = Harness(d["harness"])
    build(h)
    bad, what = outcome(h, d["entry"], d["params"], d["inputs"])
    say("%s %s(%s) on %s: %s" % (d["property"], d["entry"], d["params"][:200], d["inputs"], what))
    if bad:
        say("VIOLATION property=%s replay=%s" % (d["property"], path))
    return 1 if bad else 0


def main():
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    try:
        if sys.argv[1] == "--replay":
            return replay(sys.argv[2])
        return check(sys.argv[1], sys.argv[2])
    except Broken as e:
        say("no verdict: %s" % e)
        return 2


sys.exit(main())
