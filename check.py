#!/usr/bin/env python3
"""Decides one property by watching the real code of /repo under generated workloads.

check.py PROPERTY [--tier quick|thorough] [--seed N] [--seconds S]
check.py --setup

Builds the monitors against /repo's working tree, runs them in parallel shards, reruns whatever
died or got stuck, writes evidence/<PROPERTY>.json and prints the verdict.
Exit 0: held on everything explored. 1: VIOLATION. 2: the check itself couldn't do its work.
"""
import fcntl
import json
import os
import resource
import shlex
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from registry import PROPS  # noqa: E402

REPO = "/repo"
TARGET = os.path.join(ROOT, "target")
EVIDENCE = os.path.join(ROOT, "evidence")
FINDINGS = os.path.join(ROOT, "known-findings.txt")
JOBS = 8
STALL_S = 75  # a case taking longer is suspected to hang ...
ALONE_S = 100  # ... and refuted, if it also does when running alone
MEM = 6 << 30


def die(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)


def cargo_env():
    out = subprocess.run(
        ["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; export VMON_CARGO=\"$CARGO\"; env -0"], stdout=subprocess.PIPE, check=True
    ).stdout
    env = dict(x.split("=", 1) for x in out.decode("utf-8", "replace").split("\0") if "=" in x)
    env["CARGO_TARGET_DIR"] = TARGET
    env["CARGO_INCREMENTAL"] = "0"
    env.pop("RUSTFLAGS", None)
    env.pop("GRAPH_DIM", None)
    return env


def extra(env, cargo, crate, bins):
    """The program without the optional feature, and the library delaying threads"""
    env = dict(env, CARGO_TARGET_DIR=os.path.join(ROOT, "target", "plain"))
    so = os.path.join(bins, "delay.so")
    for cmd, src, dst in (
        (cargo + ["build", "--release", "--offline", "--locked"], os.path.join(ROOT, "target", "plain", "release", "osmgraphing"),
         os.path.join(bins, "osmgraphing-plain")),
        (["gcc", "-O2", "-shared", "-fPIC", "-o", so + ".%d.tmp" % os.getpid(), os.path.join(ROOT, "harness", "standin", "delay.c"), "-ldl"],
         so + ".%d.tmp" % os.getpid(), so),
    ):
        p = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness", crate), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            die("building failed\n%s" % p.stdout.decode("utf-8", "replace")[-4000:])
        tmp = dst + ".%d" % os.getpid()
        shutil.copy2(src, tmp)
        os.replace(tmp, dst)
        if src.endswith(".tmp"):
            os.remove(src)


def build(engine):
    """Returns the path of the binary of an engine."""
    env = cargo_env()
    cargo = shlex.split(env.get("VMON_CARGO") or "cargo")
    crate, features, name, out = {
        "lib": ("core", [], "vmon", "vmon"),
        "gpl": ("core", ["--features", "gpl"], "vmon", "vmon-gpl"),
        "cli": ("cli", ["--features", "gpl"], "osmgraphing", "osmgraphing-gpl"),
    }[engine]
    if engine == "cli":
        TARGET = os.path.join(ROOT, "target")
    else:
        env["CARGO_TARGET_DIR"] = TARGET = os.path.join(ROOT, "target", engine)
        # the hook of /repo: graphs are built out of small chunks
        env["RUSTFLAGS"] = "--cfg vmon_small_chunks"
        if engine == "lib":
            env["GRAPH_DIM"] = "8"  # documented to be chosen when building; elsewhere, it's the default
    os.makedirs(TARGET, exist_ok=True)
    bins = os.path.join(ROOT, "target", "bin")
    os.makedirs(bins, exist_ok=True)
    with open(os.path.join(ROOT, "target", "lock-" + engine), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        cmd = cargo + ["build", "--release", "--offline", "--locked"] + features
        p = subprocess.run(
            cmd,
            cwd=os.path.join(ROOT, "harness", crate),
            env=env,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
        )
        if p.returncode != 0:
            tail = p.stdout.decode("utf-8", "replace")[-4000:]
            die("building %s failed\n%s" % (engine, tail))
        if engine == "cli":
            extra(env, cargo, crate, bins)
        for name, out in ([(name, out)] if engine != "cli" else [("multi-ch-constructor",) * 2, (name, out)]):
            src = os.path.join(TARGET, "release", name)
            dst = os.path.join(bins, out)
            tmp = dst + ".%d" % os.getpid()
            shutil.copy2(src, tmp)
            os.replace(tmp, dst)
    return dst


def command(engine, binary, mode, prop, extra):
    if engine == "cli":
        base = [sys.executable, os.path.join(ROOT, "harness", "cliwork.py"), mode, "--bin", binary]
    else:
        base = [binary, mode]
    return base + ["--prop", prop] + extra


def limits(engine):
    def f():
        os.setsid()
        if engine != "cli":
            resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    return f


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


class Shard:
    def __init__(self, engine, binary, prop, seed, number, cases, budget_ms, scratch, thorough):
        self.engine, self.binary, self.prop, self.thorough = engine, binary, prop, thorough
        self.dir = os.path.join(scratch, "%s-%d" % (engine, number))
        self.out = os.path.join(scratch, "%s-%d.json" % (engine, number))
        self.err = os.path.join(scratch, "%s-%d.err" % (engine, number))
        os.makedirs(self.dir, exist_ok=True)
        extra = ["--seed", str(seed), "--shard", str(number), "--cases", str(cases)]
        extra += ["--budget-ms", str(budget_ms), "--dir", self.dir, "--out", self.out]
        if thorough:
            extra.append("--thorough")
        self.p = subprocess.Popen(
            command(engine, binary, "run", prop, extra),
            stdin=subprocess.DEVNULL,
            stdout=subprocess.DEVNULL,
            stderr=open(self.err, "wb"),
            preexec_fn=limits(engine),
            cwd=scratch,
        )
        self.last = (None, time.time())
        self.died = None

    def progress(self):
        try:
            with open(os.path.splitext(self.out)[0] + ".progress") as f:
                return f.read().split()
        except OSError:
            return []

    def poll(self):
        """True, when finished"""
        code = self.p.poll()
        if code is not None:
            if code not in (0, 1, 2) or not os.path.exists(self.out):
                self.died = "ended with status %s" % code
            return True
        pr = self.progress()
        if pr != self.last[0]:
            self.last = (pr, time.time())
        elif time.time() - self.last[1] > STALL_S:
            self.died = "got stuck for %d s" % STALL_S
            kill(self.p)
            return True
        return False

    def alone(self, case_seed, directory):
        os.makedirs(directory, exist_ok=True)
        extra = ["--case-seed", str(case_seed), "--dir", directory]
        if self.thorough:
            extra.append("--thorough")
        p = subprocess.Popen(
            command(self.engine, self.binary, "case", self.prop, extra),
            stdin=subprocess.DEVNULL,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            preexec_fn=limits(self.engine),
        )
        try:
            out, _ = p.communicate(timeout=ALONE_S)
        except subprocess.TimeoutExpired:
            kill(p)
            return "hang", "no end after %d s" % ALONE_S
        text = out.decode("utf-8", "replace")
        code = p.returncode
        return {0: "held", 1: "violated", 2: "error"}.get(code, "died"), text or "status %s" % code


def known_findings(prop):
    """[(match, text)] of unrepaired findings: 'finding: property=<id> match=<text> :: <what fails>'"""
    out = []
    try:
        for line in open(FINDINGS):
            if line.startswith("finding: property=%s " % prop):
                rest = line.split("match=", 1)[1]
                m, what = rest.split(" :: ", 1)
                out.append((m, what.strip()))
    except OSError:
        pass
    return out


def main():
    args = sys.argv[1:]
    if args == ["--setup"]:
        for e in ("lib", "gpl", "cli"):
            build(e)
        return 0
    prop = args[0]

    def opt(name, default):
        return args[args.index(name) + 1] if name in args else default

    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1")))
    cfg = PROPS[prop]
    start = time.time()
    thorough = tier == "thorough"
    seconds = float(opt("--seconds", cfg["thorough_s"] if thorough else cfg["quick_s"]))
    os.makedirs(EVIDENCE, exist_ok=True)
    evidence_file = os.path.join(EVIDENCE, prop + ".json")
    if os.path.exists(evidence_file):
        os.remove(evidence_file)

    binaries = {e: build(e) for e in cfg["engines"]}
    build_s = time.time() - start

    scratch = tempfile.mkdtemp(prefix="vmon-%s-" % prop)
    violation = None  # (shard, case_seed, text, directory)
    errors, inconclusive = [], []
    try:
        shards = []
        number = 0
        for e, share in cfg["engines"].items():
            for _ in range(share):
                shards.append(
                    Shard(e, binaries[e], prop, seed, number, 10 ** 9 if thorough else cfg["cases"],
                          int(seconds * 1000), scratch, thorough)
                )
                number += 1
        left = list(shards)
        first_violation = None
        while left:
            time.sleep(0.05)
            for s in list(left):
                if s.poll():
                    left.remove(s)
                    if s.died is None and s.p.returncode == 1:
                        first_violation = s
            if first_violation:
                # one is enough
                for s in left:
                    kill(s.p)
                break

        total = {"cases": 0, "counters": {}, "samples": []}
        distinct = set()
        for s in shards:
            if s in left:
                continue
            if s.died:
                pr = s.progress()
                if len(pr) < 2:
                    err = open(s.err, errors="replace").read()[-500:]
                    errors.append("a shard %s before its first case: %s" % (s.died, err))
                    continue
                d = os.path.join(scratch, "alone-%s" % pr[1])
                verdict, text = s.alone(pr[1], d)
                total["cases"] += int(pr[0])
                if verdict in ("violated", "died", "hang"):
                    violation = violation or (s, pr[1], "%s; alone: %s %s" % (s.died, verdict, text), d)
                elif verdict == "error":
                    errors.append(text)
                else:
                    inconclusive.append("case %s %s once, but held when repeated" % (pr[1], s.died))
                continue
            r = json.load(open(s.out))
            total["cases"] += r["cases"]
            for k, v in r["counters"].items():
                total["counters"][k] = total["counters"].get(k, 0) + v
            distinct.update(r["distinct"])
            total["samples"] += r["samples"]
            if "violation" in r and violation is None:
                violation = (s, r["violation"]["case_seed"], r["violation"]["what"], s.dir)
            if "error" in r:
                errors.append("case %s: %s" % (r["error"]["case_seed"], r["error"]["what"]))

        known = known_findings(prop)
        replay = None
        if violation:
            s, case_seed, text, directory = violation
            replay = os.path.join(EVIDENCE, "replay-" + prop)
            shutil.rmtree(replay, ignore_errors=True)
            try:
                shutil.copytree(directory, os.path.join(replay, "inputs"), symlinks=True)
            except (OSError, shutil.Error):
                os.makedirs(replay, exist_ok=True)
            with open(os.path.join(replay, "what.txt"), "w") as f:
                f.write(text + "\n")
            with open(os.path.join(replay, "replay.sh"), "w") as f:
                cmd = command(s.engine, s.binary, "case", prop, ["--case-seed", str(case_seed)])
                f.write("#!/bin/sh\n# builds, then repeats the failing case in a scratch-directory\n")
                f.write("D=$(mktemp -d)\n%s %s --build %s\n" % (sys.executable, os.path.abspath(__file__), s.engine))
                f.write(" ".join(cmd) + ' --dir "$D"%s; R=$?\nrm -r "$D"; exit $R\n' % (" --thorough" if thorough else ""))
            os.chmod(os.path.join(replay, "replay.sh"), 0o755)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    coverage = {
        "evaluations": total["cases"],
        "distinct_nontrivial": len(distinct),
        "rule": cfg["rule"],
        "samples": total["samples"][:3] or ["none recorded"],
        "observed": total["counters"],
        "build_s": round(build_s, 1),
    }
    if inconclusive:
        coverage["inconclusive"] = inconclusive
    evidence = {
        "property": prop,
        "tier": "thorough" if thorough else "quick",
        "seed": seed,
        "level": cfg["level"],
        "coverage": coverage,
        "assumptions": cfg["assumptions"],
        "wall_s": round(time.time() - start, 1),
        "violations": 1 if violation else 0,
    }
    with open(evidence_file, "w") as f:
        json.dump(evidence, f, indent=1)

    for match, what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if violation:
        print("case %s: %s" % (violation[1], violation[2][:3000]))
        print("VIOLATION property=%s replay=%s" % (prop, replay), flush=True)
        return 1
    if errors:
        die("the harness failed: " + "; ".join(errors)[:3000])
    missing = [k for k in cfg.get("must_see", []) if not total["counters"].get(k)]
    if total["cases"] == 0 or len(distinct) < 2 or missing:
        die("nothing relevant was observed (cases %d, distinct %d, never seen: %s; %s)"
            % (total["cases"], len(distinct), missing, "; ".join(inconclusive)))
    print("%s held: %d cases, %d distinct and non-trivial, %s, %.0f s"
          % (prop, total["cases"], len(distinct), total["counters"], time.time() - start))
    return 0


if __name__ == "__main__":
    if sys.argv[1:2] == ["--build"]:
        build(sys.argv[2])
        sys.exit(0)
    sys.exit(main())
