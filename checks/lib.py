import argparse
import fcntl
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
EVID = os.path.join(VERIF, "evidence")
HARNESS = os.path.join(VERIF, "harness")
LAPS = ["laps", "laps_macros", "laps_regex"]


class Inconclusive(Exception):
    pass


class Violation(Exception):
    def __init__(self, msg, replay=None):
        super().__init__(msg)
        self.msg = msg
        self.replay = replay or {}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- building

def repo_hash():
    h = hashlib.sha256()
    files = []
    for root in ("src", "laps_macros", "laps_regex", "examples"):
        for d, ds, fs in os.walk(os.path.join(REPO, root)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            files += [os.path.join(d, f) for f in fs]
    files += [os.path.join(REPO, f) for f in ("Cargo.toml", "Cargo.lock")]
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def cargo_env(target, extra=None):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTDOCFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN"):
            del e[k]
    e["CARGO_TARGET_DIR"] = target
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(extra or {})
    return e


class Lock:
    def __enter__(self):
        os.makedirs(TARGET, exist_ok=True)
        self.f = open(os.path.join(TARGET, ".verif-lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def refresh(target, crate_dir, toolchain=()):
    """Throws away compiled copies of /repo's crates when its content is not the content they were
    compiled from (file times alone do not tell)."""
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, ".repo-hash")
    now = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != now and old is not None:
        names = [*LAPS, *(c for c in os.listdir(HARNESS) if c != "vmon")]
        for d, ds, _ in os.walk(target):
            if os.path.basename(d) == ".fingerprint":
                for c in ds:
                    if c.rsplit("-", 1)[0] in names:
                        shutil.rmtree(os.path.join(d, c), ignore_errors=True)
                ds[:] = []
            elif os.path.basename(d) == "build":  # the layout of newer toolchains
                for c in ds:
                    if c in names:
                        shutil.rmtree(os.path.join(d, c), ignore_errors=True)
                ds[:] = []
    if old != now:
        with open(stamp, "w") as f:
            f.write(now)


def cargo(crate, args, target=TARGET, toolchain=None, env=None, timeout=800):
    d = os.path.join(HARNESS, crate)
    refresh(target, d)
    cmd = ["cargo"] + ([f"+{toolchain}"] if toolchain else []) + args
    try:
        return subprocess.run(cmd, cwd=d, env=cargo_env(target, env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                              text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Inconclusive(f"building {crate} took too long")


def build(crate, args=(), compile_errors_violate=(), env=None, target=TARGET, toolchain=None, verb=("build", "--offline")):
    with Lock():
        t = time.time()
        r = cargo(crate, [*verb, *args], target, toolchain, env)
        log(f"built {crate} in {time.time() - t:.1f}s")
        if r.returncode != 0:
            errs = r.stdout[-6000:]
            # compile_errors_violate: names of the crates that have to compile for the property to hold
            for c in compile_errors_violate or ():
                if re.search(r"could not compile `" + re.escape(c) + "`", r.stdout):
                    raise Violation(f"{c} does not compile:\n" + first_errors(r.stdout), {"build": crate})
            raise Inconclusive(f"{crate} does not build:\n{errs}")
    return os.path.join(target, "debug")


def first_errors(out, n=3):
    blocks = re.split(r"\n(?=error|warning)", out)
    errs = [b for b in blocks if b.startswith("error")]
    return "\n".join(errs[:n])[:4000]


# ---------------------------------------------------------------- workers

SANITIZER_EXIT = 78
REPORT = re.compile(r"error: (Undefined Behavior|the evaluated program deadlocked|memory leaked|abnormal termination)|"
                    r"(WARNING|ERROR): (Thread|Address)Sanitizer|unsafe precondition\(s\) violated")


def report(path):
    """The first report of an interpreter or sanitizer in a log, or None."""
    text = open(path, "rb").read().decode("utf-8", "replace")
    m = REPORT.search(text)
    return text[m.start():m.start() + 3000] if m else None


def run_workers(binary, prop, tier, seed, cases, shards=8, max_s=300.0, wall_s=700.0, env=None, extra=(), shard_env=None):
    """binary: the worker, or a command list that runs it; shard_env(s): more environment for shard s."""
    command = [binary] if isinstance(binary, str) else list(binary)
    tmp = os.path.join(TARGET, "run", f"{prop}-{os.getpid()}")
    os.makedirs(tmp, exist_ok=True)
    procs = []
    start = time.time()
    e = dict(os.environ)
    e["RUST_BACKTRACE"] = "0"
    e["VMON_KNOWN"] = ",".join(f["id"] for f in known_findings(prop))
    e.update(env or {})
    shards = max(1, min(shards, cases))
    try:
        for s in range(shards):
            out = os.path.join(tmp, f"o{s}")
            cmd = [*command, "--prop", prop, "--seed", str(seed), "--tier", tier, "--shard", str(s), "--shards", str(shards),
                   "--cases", str(cases), "--max-s", str(max_s), "--out", out, *extra]
            log_f = open(out + ".log", "wb")
            procs.append((s, out, subprocess.Popen(cmd, stdout=log_f, stderr=subprocess.STDOUT,
                                                    env={**e, **(shard_env(s) if shard_env else {})}, cwd=tmp, start_new_session=True)))
        res = {"cases": 0, "evaluations": 0, "counters": {}, "samples": [], "hashes": set(), "rule": "", "truncated": False, "findings": {}}
        violations, problems = [], []
        for s, out, p in procs:
            left = wall_s - (time.time() - start)
            try:
                rc = p.wait(timeout=max(left, 1))
            except subprocess.TimeoutExpired:
                stop(p)
                problems.append(f"shard {s} was still running after {wall_s:.0f} s at case {progress(out)}")
                continue
            tail = open(out + ".log", "rb").read()[-1500:].decode("utf-8", "replace")
            rep = report(out + ".log") if rc != 0 else None
            if rep:
                violations.append((progress(out), rep))
            elif rc == 77:
                msg = open(out + ".fatal", errors="replace").read() if os.path.exists(out + ".fatal") else "fatal"
                violations.append((progress(out), msg))
            elif rc < 0 and -rc in (signal.SIGABRT, signal.SIGSEGV, signal.SIGILL, signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP):
                violations.append((progress(out), f"the process ended with {signal.Signals(-rc).name}: {tail.strip()}"))
            elif rc == 0 and os.path.exists(out):
                d = json.load(open(out))
                res["cases"] += d["cases"]
                res["evaluations"] += d["evaluations"]
                res["truncated"] |= d["truncated"]
                res["rule"] = d["rule"]
                for k, v in d["counters"].items():
                    res["counters"][k] = res["counters"].get(k, 0) + v
                for k, v in d["findings"].items():
                    res["findings"][k] = res["findings"].get(k, 0) + v
                res["samples"] += d["samples"]
                b = open(out + ".hashes", "rb").read()
                res["hashes"].update(b[i:i + 8] for i in range(0, len(b), 8))
                violations += [(v["case"], v["msg"]) for v in d["violations"]]
                problems += [f"case {v['case']}: {v['msg']}" for v in d["harness_errors"]]
            else:
                problems.append(f"shard {s} ended with {rc} at case {progress(out)}: {tail.strip()}")
        return res, sorted(violations), problems
    finally:
        for _, _, p in procs:
            if p.poll() is None:
                stop(p)
        shutil.rmtree(tmp, ignore_errors=True)


def stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def progress(out):
    try:
        return int.from_bytes(open(out + ".progress", "rb").read(8), "little")
    except OSError:
        return -1


# ---------------------------------------------------------------- verdicts

def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get("findings", []) if f["property"] == prop]


class Result:
    """What one check observed."""

    def __init__(self):
        self.evaluations = 0
        self.distinct = 0
        self.rule = ""
        self.samples = []
        self.counters = {}
        self.extra = {}
        self.violations = []  # (message, replay dict)
        self.problems = []
        self.findings = {}

    def add_workers(self, prop, res, violations, problems, replay, label=""):
        self.evaluations += res["evaluations"]
        self.distinct += len(res["hashes"])
        self.rule = self.rule or res["rule"]
        self.samples += res["samples"]
        for k, v in res["counters"].items():
            k = label + k
            self.counters[k] = self.counters.get(k, 0) + v
        for k, v in res["findings"].items():
            self.findings[k] = self.findings.get(k, 0) + v
        self.extra[label + "cases"] = self.extra.get(label + "cases", 0) + res["cases"]
        if res["truncated"]:
            self.extra["stopped_by_time_limit"] = True
        for case, msg in violations:
            self.violations.append((msg, dict(replay, case=case)))
        self.problems += problems


def write_evidence(prop, tier, seed, level, r, wall, assumptions, count):
    os.makedirs(EVID, exist_ok=True)
    cov = {
        "evaluations": r.evaluations,
        "distinct_nontrivial": r.distinct,
        "rule": r.rule,
        "samples": r.samples[:5] or ["(none)"],
        "observed": r.counters,
        **({"known_findings_seen": r.findings} if r.findings else {}),
        **r.extra,
    }
    doc = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
           "wall_s": round(wall, 2), "violations": count}
    path = os.path.join(EVID, f"{prop}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(doc, f, indent=1, ensure_ascii=False)
    os.replace(path + ".tmp", path)


def finish(prop, tier, seed, level, r, start, assumptions):
    fresh = r.violations
    known = {f["what"] for f in known_findings(prop) if r.findings.get(f["id"])}
    if not fresh and not r.problems and r.evaluations == 0:
        r.problems.append("nothing was observed")
    write_evidence(prop, tier, seed, level, r, time.time() - start, assumptions, len(fresh))
    for w in sorted(known):
        print(f"KNOWN-FINDING: property={prop} {w}")
    if fresh:
        msg, rep = fresh[0]
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop}-{seed}-{rep.get('case', 0)}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "message": msg, **rep}, f, indent=1, ensure_ascii=False)
        for m, _ in fresh[:3]:
            print("violated:", m[:1500])
        print(f"VIOLATION property={prop} replay={path}", flush=True)
        sys.exit(1)
    if r.problems:
        for p in r.problems[:5]:
            print("no verdict:", p[:3000])
        sys.exit(2)
    print(f"{prop}: held on {r.evaluations} evaluations ({r.distinct} distinct non-trivial), {time.time() - start:.1f}s")
    sys.exit(0)


def main():
    import props
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    start = time.time()
    spec = props.PROPS[a.prop]
    case = None
    if a.replay:
        rep = json.load(open(a.replay))
        a.seed, a.tier, case = rep["seed"], rep["tier"], rep.get("case")
    r = Result()
    try:
        spec["run"](a.prop, a.tier, a.seed, r, case)
    except Violation as v:
        r.violations.append((v.msg, v.replay))
        r.evaluations = max(r.evaluations, 1)
    except Inconclusive as e:
        r.problems.append(str(e))
    finish(a.prop, a.tier, a.seed, spec.get("level", "exploration"), r, start, spec.get("assumptions", []))
