#!/usr/bin/env python3
"""Runs the check of one property:  check.py C01 [quick|thorough]
or replays a saved failure:          check.py --replay C01 replays/C01-....json

Builds the harness against /repo's working tree, runs fixed-size shards of generated cases, minimises a failure
(a crash of the process included) into a replay file, and writes evidence/<id>.json.

Exit 0: the property held on everything explored. Exit 1 with a VIOLATION line: it is broken. Exit 2: no answer.
"""
import array
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(HERE, "harness")
REPLAYS = os.path.join(HERE, "replays")
sys.path.insert(0, HERE)
from fresh import forget_stale  # noqa: E402
from props import PROPS  # noqa: E402

CRASH_SIGNALS = {signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}
ASAN_EXIT = 77
# a case that takes this many seconds does not end: the slowest take about one
STALL = 120
TSAN_EXIT = 78


class NoAnswer(Exception):
    pass


def base_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTC", "RUSTFLAGS", "RUSTDOC"))}
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if os.environ.get(k):
            env[k] = os.environ[k]
    if os.environ.get("RUSTUP_HOME") is None:
        env.pop("RUSTUP_HOME", None)
    env.pop("RUSTUP_TOOLCHAIN", None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env["VH_DICT"] = dictionary()
    env["ASAN_OPTIONS"] = f"exitcode={ASAN_EXIT}:detect_leaks=0:hard_rss_limit_mb=3000:allocator_may_return_null=1:abort_on_error=0"
    env["TSAN_OPTIONS"] = f"exitcode={TSAN_EXIT}:halt_on_error=1"
    return env


_DICT = None


def dictionary():
    """Integer literals of the code under test: hints for the generators, never part of a verdict."""
    global _DICT
    if _DICT is None:
        found = set()
        for root, dirs, files in os.walk(REPO):
            dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "benches", "examples"))
            for f in sorted(files):
                if not f.endswith(".rs") or f.endswith("_tests.rs"):
                    continue
                text = open(os.path.join(root, f), encoding="utf-8", errors="replace").read()
                text = text.split("#[cfg(test)]\nmod test")[0]
                text = re.sub(r"//.*", "", text)
                for m in re.finditer(r"\b(0[xX][0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)(?:[iu](?:8|16|32|64|128|size))?\b", text):
                    t = m.group(1).replace("_", "")
                    try:
                        v = int(t, 0) if t[:2].lower() in ("0x", "0b") else int(t)
                    except ValueError:
                        continue
                    if 0 <= v < 1 << 64:
                        found.add(v)
        _DICT = ",".join(map(str, sorted(found)[:400]))
    return _DICT


def build(kind, bins, log):
    """Builds binaries; returns the directory they are in."""
    env = base_env()
    cmd = ["cargo", "build", "--offline", "--locked", "--manifest-path", os.path.join(HARNESS, "Cargo.toml")]
    for b in bins:
        cmd += ["--bin", b]
    if kind == "checked":
        cmd += ["--profile", "checked", "--target-dir", os.path.join(HARNESS, "target")]
        env["RUSTFLAGS"] = "--cap-lints=allow"
        out = os.path.join(HARNESS, "target", "checked")
    elif kind in ("fast", "release", "unchecked"):
        cmd += ["--profile", kind, "--target-dir", os.path.join(HARNESS, "target")]
        env["RUSTFLAGS"] = "--cap-lints=allow"
        out = os.path.join(HARNESS, "target", kind)
    elif kind == "asan":
        t = "x86_64-unknown-linux-gnu"
        cmd += ["--profile", "asan", "--target", t, "--target-dir", os.path.join(HARNESS, "target-asan")]
        env["RUSTFLAGS"] = "--cap-lints=allow -Zsanitizer=address"
        env["RUSTC_BOOTSTRAP"] = "1"
        out = os.path.join(HARNESS, "target-asan", t, "asan")
    elif kind == "tsan":
        t = "x86_64-unknown-linux-gnu"
        cmd += ["--profile", "asan", "--target", t, "--target-dir", os.path.join(HARNESS, "target-tsan")]
        # the standard library is not instrumented; the harness synchronises with its own atomics and by joining
        env["RUSTFLAGS"] = "--cap-lints=allow -Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer"
        env["RUSTC_BOOTSTRAP"] = "1"
        out = os.path.join(HARNESS, "target-tsan", t, "asan")
    elif kind == "guided":
        t = "x86_64-unknown-linux-gnu"
        cmd += ["--profile", kind, "--target", t, "--target-dir", os.path.join(HARNESS, "target-guided")]
        env["RUSTFLAGS"] = ("--cap-lints=allow --cfg vh_cov -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 "
                            "-Cllvm-args=-sanitizer-coverage-inline-8bit-counters")
        out = os.path.join(HARNESS, "target-guided", t, kind)
    elif kind == "miri":
        return build_miri(bins, log)
    else:
        raise NoAnswer(f"unknown build {kind}")
    t0 = time.time()
    forget_stale(out)
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    log.append(f"build {kind}: {time.time() - t0:.1f} s")
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-6000:])
        raise NoAnswer(f"the {kind} harness does not build")
    return out


def miri_command(bin):
    return ["cargo", "+nightly", "miri", "run", "--quiet", "--offline", "--locked", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"),
            "--target-dir", os.path.join(HARNESS, "target-miri"), "--bin", bin, "--"]


def miri_env():
    return {**base_env(), "RUSTFLAGS": "-Awarnings -Aunstable_imports",
            "MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows"}


def build_miri(bins, log):
    """Builds what Miri interprets. Where it cannot be built, what runs under Miri is left out, which the evidence says."""
    t0 = time.time()
    forget_stale(os.path.join(HARNESS, "target-miri", "miri", "x86_64-unknown-linux-gnu", "debug"))
    for b in bins:
        try:
            r = subprocess.run([*miri_command(b), "--cases", "0"], env=miri_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=300)
            failed = r.returncode != 0 and r.stdout[-1500:]
        except (OSError, subprocess.TimeoutExpired) as e:
            failed = str(e)
        if failed:
            log.append(f"Miri cannot be used: {failed}")
            return None
    log.append(f"build miri: {time.time() - t0:.1f} s")
    return HARNESS


def command(part):
    return miri_command(part["bin"]) if part["build"] == "miri" else [os.path.join(part["dir"], part["bin"])]


class Violation(Exception):
    def __init__(self, message, path):
        super().__init__(message)
        self.message = message
        self.path = path


def save_replay(pid, data):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{pid}-{os.getpid()}-{data.get('shard', 0)}-{data.get('index', 0)}.json")
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")
    return path


def limit_memory():
    """For workers that run without a sanitizer, which need less than a tenth of this."""
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


def limits(part):
    return None if part["build"] == "miri" else limit_memory if part["build"] not in ("asan", "tsan") else None


def is_crash(rc):
    return (rc < 0 and -rc in CRASH_SIGNALS) or rc in (ASAN_EXIT, TSAN_EXIT)


def run_parts(pid, parts, seed, tier, timeout, log):
    """Runs every part's shards, at most 8 at a time; returns merged counters."""
    tmp = tempfile.mkdtemp(prefix="vh-")
    env = base_env()
    try:
        jobs = []
        for pi, part in enumerate(parts):
            shards = part.get("shards", 8)
            for s in range(shards):
                jobs.append((part, pi * 1000 + s, part["cases"] // shards))
        running, results, queue = [], [], list(jobs)
        deadline = time.time() + timeout
        progress, looked = {}, time.time()
        # a part is identified by its position, so that evidence can be broken down
        while queue or running:
            while queue and len(running) < 8:
                part, shard, cases = queue.pop(0)
                out, state = os.path.join(tmp, f"{shard}.json"), os.path.join(tmp, f"{shard}.state")
                err = open(os.path.join(tmp, f"{shard}.err"), "w+b")
                cmd = [*command(part), "--seed", str(seed), "--shard", str(shard), "--cases", str(cases), "--tier", tier,
                       "--out", out, "--state", state]
                if "seconds" in part:
                    cmd += ["--seconds", str(part["seconds"])]
                if part["build"] == "guided":
                    cmd += ["--guided"]
                p = subprocess.Popen(cmd, env=env_of(part, env), stdout=subprocess.DEVNULL, stderr=err,
                                     preexec_fn=limits(part), start_new_session=part["build"] == "miri")
                running.append((p, part, shard, out, state, err, time.time()))
                progress[shard] = (None, time.time())
            time.sleep(0.02)
            if time.time() > looked + 1:
                looked = time.time()
                for p, part, shard, out, state, err, _ in running:
                    at = open(state, "rb").read(8) if os.path.exists(state) else None
                    if at != progress[shard][0]:
                        progress[shard] = (at, looked)
                    elif at and looked - progress[shard][1] > STALL and p.poll() is None and part["build"] != "miri":
                        for r in running:
                            r[0].kill()
                            r[0].wait()
                        raise stalled(pid, part, shard, int.from_bytes(at, "little"), seed, tier, tmp, env_of(part, env))
            for r in list(running):
                if r[0].poll() is not None:
                    running.remove(r)
                    results.append(r)
            for r in running:
                # the same cases end elsewhere, where this is noticed
                if r[1]["build"] == "miri" and time.time() > r[6] + r[1]["seconds"] + 150 and r[0].poll() is None:
                    os.killpg(r[0].pid, signal.SIGKILL)
                    r[0].wait()
            if time.time() > deadline:
                for r in running:
                    r[0].kill()
                    r[0].wait()
                raise NoAnswer("out of time")
        results.sort(key=lambda r: r[2])
        total = {"evaluations": 0, "nontrivial": 0, "labels": {}, "samples": [], "rules": [], "parts": []}
        distinct = set()
        for p, part, shard, out, state, err, t0 in results:
            rc = p.returncode
            if rc == 0:
                d = json.load(open(out))
                total["evaluations"] += d["evaluations"]
                part["done"] = part.get("done", 0) + d["evaluations"]
                total["nontrivial"] += d["nontrivial"]
                for k, v in d["labels"].items():
                    total["labels"][k] = total["labels"].get(k, 0) + v
                if len(total["samples"]) < 6:
                    total["samples"] += d["samples"][:1]
                if d["rule"] not in total["rules"]:
                    total["rules"].append(d["rule"])
                a = array.array("Q")
                a.frombytes(open(out + ".hashes", "rb").read())
                distinct.update((part["bin"], h) for h in a) if len(parts) > 1 else distinct.update(a)
            elif rc == 1 and os.path.exists(out):
                d = json.load(open(out))
                d["build"], d["bin"] = part["build"], part["bin"]
                path = save_replay(pid, d)
                raise Violation(d["message"] + "\n  case: " + d["case"], path)
            elif is_crash(rc) and part["build"] != "miri" or is_undefined(part, err):
                raise crash(pid, part, shard, state, err, seed, tier, tmp, rc, env_of(part, env))
            elif part["build"] == "miri":
                # what Miri cannot interpret, or does not get done, is decided by the other builds
                err.seek(0)
                log.append(f"Miri worker {shard} ended with {rc}: {err.read().decode(errors='replace')[:300]}")
            else:
                err.seek(0)
                sys.stderr.write(err.read().decode(errors="replace")[-3000:])
                raise NoAnswer(f"shard {shard} of {part['bin']} ended with {rc}")
        total["distinct"] = len(distinct)
        return total
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def env_of(part, env):
    return miri_env() if part["build"] == "miri" else env


def is_undefined(part, err):
    """Miri reports undefined behaviour in the code under test (or what it calls), as opposed to anything else that ends it."""
    if part["build"] != "miri":
        return False
    err.seek(0)
    return "error: Undefined Behavior" in err.read().decode(errors="replace")


def tape_of(part, shard, idx, seed, tier, tmp, env, limit):
    """Reruns one case with its tape mirrored: the tape, what it printed, and whether it ended."""
    mirror = os.path.join(tmp, "mirror")
    which = ["--from", os.path.join(tmp, f"{shard}.state")] if part["build"] == "guided" else ["--one", str(idx)]
    ended, text = True, ""
    try:
        r = subprocess.run([*command(part), "--seed", str(seed), "--shard", str(shard), *which, "--mirror", mirror, "--tier", tier],
                           env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=limit, preexec_fn=limits(part))
        text = r.stderr.decode(errors="replace")
        ended = r.returncode
    except subprocess.TimeoutExpired:
        ended = None
    a = array.array("Q")
    if os.path.exists(mirror):
        raw = open(mirror, "rb").read()
        a.frombytes(raw[: len(raw) // 8 * 8])
    return list(a), text, ended


def stalled(pid, part, shard, idx, seed, tier, tmp, env):
    """A worker makes no progress: a case that does not end, or whose minimisation does not."""
    tape, text, ended = tape_of(part, shard, idx, seed, tier, tmp, env, STALL / 2)
    if ended == 0:
        return NoAnswer(f"shard {shard} of {part['bin']} took too long over case {idx}, which ends by itself")
    data = {"property": pid, "message": "the case does not end" if ended is None else text[-1500:], "case": "", "tape": tape,
            "shard": shard, "index": idx, "build": part["build"], "bin": part["bin"]}
    if ended is None:
        minimise(part, data, tmp, tier, env, ["--hang"])
        data["message"] = "the case does not end"
    path = save_replay(pid, data)
    return Violation(data["message"] + "\n  case: " + data["case"], path)


def minimise(part, data, tmp, tier, env, more):
    """Minimises a failure of the whole process, in child processes."""
    first, out = os.path.join(tmp, "crash.json"), os.path.join(tmp, "shrunk.json")
    with open(first, "w") as f:
        json.dump(data, f)
    exe, limit = os.path.join(part["dir"], part["bin"]), 150
    if part["build"] == "miri":
        # Miri runs nothing but the candidates
        exe, limit = os.path.join(HARNESS, "target", "checked", part["bin"]), 240
        env = {**env, "VH_CHILD": "\n".join(command(part))}
    try:
        subprocess.run([exe, "--shrink-crash", first, "--out", out, "--tier", tier, *more], env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=limit, preexec_fn=limits(part))
    except subprocess.TimeoutExpired:
        pass
    if os.path.exists(out):
        data.update(json.load(open(out)))
    else:
        data["message"] += " (not reproduced in isolation)"


def crash(pid, part, shard, state, err, seed, tier, tmp, rc, env):
    """A worker died: find the case, minimise it in child processes."""
    err.seek(0)
    text = err.read().decode(errors="replace")
    idx = int.from_bytes(open(state, "rb").read(8), "little")
    tape, _, _ = tape_of(part, shard, idx, seed, tier, tmp, env, STALL)
    if part["build"] == "miri":
        text = text[text.index("error: Undefined Behavior"):][:1500]
    data = {"property": pid, "message": f"the process died ({rc}): {text[-1500:]}", "case": "", "tape": tape,
            "shard": shard, "index": idx, "build": part["build"], "bin": part["bin"]}
    minimise(part, data, tmp, tier, env, [])
    path = save_replay(pid, data)
    return Violation(data["message"] + "\n  case: " + data["case"], path)


def known_findings():
    """Lines of known-findings.txt: 'finding: property=<id> <signature>'. 'fixed:' lines suppress nothing."""
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\w+) (.*)", line.strip())
            if m:
                out.append((m.group(1), m.group(2)))
    return out


def do_check(pid, tier):
    conf = PROPS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    log = []
    violations = 0
    parts = []
    for part in conf["parts"]:
        cases = part["quick"] if tier == "quick" else part.get("thorough", part["quick"] * 20)
        part = {**part, "cases": cases}
        if "seconds" in part:
            part["seconds"] = part["seconds"][tier]
        if cases and part.get("seconds", 1):
            parts.append(part)
    evidence = os.path.join(HERE, "evidence", f"{pid}.json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}
    status = 0
    try:
        builds = {}
        for part in parts:
            builds.setdefault(part["build"], []).append(part["bin"])
        dirs = {k: build(k, sorted(set(v)), log) for k, v in builds.items()}
        for part in parts:
            part["dir"] = dirs[part["build"]]
        parts = [p for p in parts if p["dir"]]
        # the budget covers a slow machine; running out of it is no answer, not a violation
        t1 = time.time()
        total = run_parts(pid, parts, seed, tier, 760 if tier == "quick" else 4 * 3600, log)
        log.append(f"run: {time.time() - t1:.1f} s")
        cov["evaluations"] = total["evaluations"]
        cov["distinct_nontrivial"] = total["distinct"]
        cov["rule"] = " | ".join(total["rules"])
        cov["samples"] = total["samples"]
        cov["classes"] = dict(sorted(total["labels"].items()))
        cov["parts"] = [{"binary": p["bin"], "build": p["build"], "cases": p.get("done", 0)} for p in parts]
        for extra in conf.get("extra", []):
            mod = __import__(extra)
            t1 = time.time()
            ev = mod.run(pid, tier, seed, base_env(), save_replay, Violation, NoAnswer)
            log.append(f"{extra}: {time.time() - t1:.1f} s")
            cov["evaluations"] += ev["evaluations"]
            cov["distinct_nontrivial"] += ev["distinct"]
            cov["rule"] = " | ".join(r for r in (cov["rule"], ev["rule"]) if r)
            cov["samples"] += ev["samples"]
            cov[extra] = ev["detail"]
    except Violation as v:
        violations = 1
        print(v.message)
        print(f"VIOLATION property={pid} replay={v.path}")
        cov["samples"] = [v.message]
        cov["rule"] = cov["rule"] or "stopped at the first violation"
        status = 1
    except NoAnswer as e:
        print(f"no answer: {e}")
        return 2
    for p, what in known_findings():
        if p == pid:
            print(f"KNOWN-FINDING: property={p} {what}")
    wall = time.time() - t0
    with open(evidence, "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
                   "assumptions": conf.get("assumptions", []), "wall_s": round(wall, 2), "violations": violations,
                   "timing": log}, f, indent=1)
        f.write("\n")
    if status == 0:
        print(f"{pid}: held on {cov['evaluations']} cases ({cov['distinct_nontrivial']} distinct and non-trivial), "
              f"{wall:.0f} s ({'; '.join(log)})")
    return status


def do_replay(pid, path):
    d = json.load(open(path))
    if "script" in d:
        mod = __import__(d["script"])
        return mod.replay(d, base_env())
    log = []
    part = {"build": d.get("build", "checked"), "bin": d["bin"]}
    part["dir"] = build(part["build"], [d["bin"]], log)
    try:
        r = subprocess.run([*command(part), "--replay", path], env=env_of(part, base_env()), timeout=3 * STALL)
    except subprocess.TimeoutExpired:
        print("replay: the case does not end")
        return 1
    if r.returncode not in (0, 1):
        print(f"replay: the process ended with {r.returncode}")
    return 0 if r.returncode == 0 else 1


def main():
    if sys.argv[1] == "--replay":
        sys.exit(do_replay(sys.argv[2], sys.argv[3]))
    if sys.argv[1] == "--setup":
        # checks build for themselves; this only shows early that the machinery builds at all
        log = []
        build("checked", sorted({p["bin"] for c in PROPS.values() for p in c["parts"] if p["build"] == "checked"}), log)
        print("; ".join(log))
        sys.exit(0)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(do_check(sys.argv[1], tier))


if __name__ == "__main__":
    main()
