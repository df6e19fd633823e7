"""What each property's check runs."""
import os
import subprocess

import decl

from lib import HARNESS, REPO, TARGET, VERIF, Inconclusive, Result, Violation, build, cargo, cargo_env, log, run_workers


def worker(crate, quick, thorough, binary=None, compile_errors_violate=(), env=None, max_s=(120, 1500), shards=8):
    """A check that consists of the worker processes of one monitor crate."""

    def run(prop, tier, seed, r, case):
        e = dict(env or {})
        e["VERIF_SEED"] = str(seed)
        e["VERIF_TIER"] = tier
        d = build(crate, compile_errors_violate=compile_errors_violate, env=e)
        exe = os.path.join(d, binary or crate)
        if case is not None and case >= 0:
            subprocess.run([exe, "--prop", prop, "--seed", str(seed), "--tier", tier, "--case", str(case)], env={**os.environ, **e})
        n = quick if tier == "quick" else thorough
        wall = 700 if tier == "quick" else 3 * max_s[1]
        res, v, p = run_workers(exe, prop, tier, seed, n, shards=shards, max_s=max_s[tier != "quick"], wall_s=wall, env=e)
        r.add_workers(prop, res, v, p, {"crate": crate})

    return run


SAN_TARGET = "x86_64-unknown-linux-gnu"
SANITIZERS = {
    # name: rustc flag, further cargo arguments, run-time options
    "ThreadSanitizer": ("thread", ["-Zbuild-std"], {"TSAN_OPTIONS": "exitcode=78 halt_on_error=1 second_deadlock_stack=1"}),
    "AddressSanitizer": ("address", [], {"ASAN_OPTIONS": "exitcode=78:detect_leaks=0:detect_stack_use_after_return=1"}),
}


def build_sanitized(crate, name, violate=()):
    flag, args, opts = SANITIZERS[name]
    target = os.path.join(TARGET, flag)
    build(crate, [*args, "--target", SAN_TARGET], violate, {"RUSTFLAGS": f"-Zsanitizer={flag}"}, target, "nightly")
    return os.path.join(target, SAN_TARGET, "debug", crate), opts


def build_miri(crate, violate=()):
    """Builds for the interpreter, by running it on no case; gives the command that runs it."""
    target = os.path.join(TARGET, "miri")
    env = {"MIRIFLAGS": "-Zmiri-disable-isolation"}
    null = os.path.join(TARGET, "miri-none")
    build(crate, ["--offline", "--", "--prop", "M01", "--cases", "0", "--out", null], violate, env, target, "nightly", ["miri", "run"])
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--manifest-path", os.path.join(HARNESS, crate, "Cargo.toml"), "--"]
    return cmd, cargo_env(target, env)


def sanitized(crate, name, native, miri, miri_flags=lambda s: ""):
    """A check that runs one monitor crate under a sanitizer and under the interpreter.
    native, miri: cases for (quick, thorough)."""

    def run(prop, tier, seed, r, case):
        deep = tier != "quick"
        exe, opts = build_sanitized(crate, name, (crate,))
        one = ["--case", str(case)] if case is not None and case >= 0 else None
        if one:
            subprocess.run([exe, "--prop", prop, "--seed", str(seed), "--tier", tier, *one], env={**os.environ, **opts})
        res, v, p = run_workers(exe, prop, tier, seed, native[deep], max_s=(100, 1500)[deep], wall_s=(300, 3000)[deep], env=opts)
        r.add_workers(prop, res, v, p, {"crate": crate, "under": name}, f"under {name}: ")
        cmd, env = build_miri(crate, (crate,))
        flags = env["MIRIFLAGS"]
        shard_env = lambda s: {"MIRIFLAGS": f"{flags} -Zmiri-seed={seed * 1000 + s} {miri_flags(s)}"}
        if one:
            subprocess.run([*cmd, "--prop", prop, "--seed", str(seed), "--tier", tier, *one], env={**env, **shard_env(case % 8)})
        res, v, p = run_workers(cmd, prop, tier, seed, miri[deep], max_s=(120, 2400)[deep], wall_s=(500, 5000)[deep], env=env, shard_env=shard_env)
        r.add_workers(prop, res, v, p, {"crate": crate, "under": "Miri"}, "under Miri: ")

    return run


REGEX = ["the pattern parser (regex-syntax) gives the intended meaning to the syntax the generators use"]

PROPS = {
    "X01": dict(run=worker("hregex", 4000, 150000), assumptions=REGEX),
    "X02": dict(run=worker("hregex", 2500, 100000), assumptions=REGEX),
    "X03": dict(run=worker("hregex", 30000, 1000000), assumptions=REGEX),
    "X04": dict(run=worker("hregex", 3000, 120000), assumptions=REGEX),
    "X05": dict(run=worker("hregex", 900, 30000, shards=4), assumptions=REGEX),
    "X06": dict(run=worker("hregex", 8000, 400000), assumptions=REGEX + ["bounded size: at most 1500 nodes after unrolling and 120 class ranges per list"]),
    "X07": dict(run=worker("hregex", 3000, 120000), assumptions=REGEX),
    "X08": dict(run=worker("hstage", 60000, 2500000), assumptions=REGEX),
    "X09": dict(run=worker("hstage", 250000, 10000000)),
    "R01": dict(run=worker("hcore", 1000000, 60000000)),
    "R02": dict(run=worker("hcore", 400000, 30000000)),
    "R03": dict(run=worker("hcore", 800000, 60000000)),
    "R04": dict(run=worker("hcore", 800000, 60000000)),
    "R05": dict(run=worker("hcore", 300000, 20000000)),
    "L05": dict(run=worker("hcore", 400000, 20000000)),
    "L06": dict(run=worker("hcore", 400000, 20000000)),
    "T01": dict(run=worker("hcore", 1500000, 80000000)),
    "T02": dict(run=worker("hcore", 1500000, 80000000)),
    "T05": dict(run=worker("hcore", 300000, 20000000)),
    "T06": dict(run=worker("hcore", 1000000, 60000000)),
    "P01": dict(run=worker("hparse", 800000, 40000000, compile_errors_violate=("hparse",))),
    "C01": dict(run=decl.run(400, 12000), assumptions=["the compiler reports errors of macros with their places"],
                technique="monitor over the compiler's diagnostics while it runs the macros on generated declarations"),
    "D01": dict(run=worker("hcore", 40000, 2000000)),
    "D02": dict(run=worker("hcore", 60000, 4000000)),
    "D03": dict(run=worker("hcore", 20000, 1000000)),
    "D05": dict(run=worker("hcore", 300000, 20000000)),
    "D04": dict(run=worker("hnolog", 300000, 15000000, compile_errors_violate=("laps", "hnolog"))),
    "L01": dict(run=worker("hlex", 400000, 20000000, compile_errors_violate=("hlex",)), assumptions=REGEX),
    "L02": dict(run=worker("hlex", 400000, 20000000, compile_errors_violate=("hlex",)), assumptions=REGEX),
    "L03": dict(run=worker("hlex", 400000, 20000000, compile_errors_violate=("hlex",)), assumptions=REGEX),
    "L04": dict(run=worker("hlex", 400000, 20000000, compile_errors_violate=("hlex",)), assumptions=REGEX),
    "T03": dict(run=worker("hparse", 2000000, 100000000, compile_errors_violate=("hparse",))),
    "T04": dict(run=worker("hparse", 1000000, 60000000, compile_errors_violate=("hparse",))),
    "A01": dict(run=worker("hparse", 2000000, 100000000, compile_errors_violate=("hparse",))),
    "A02": dict(run=worker("hparse", 2000000, 100000000, compile_errors_violate=("hparse",))),
    "A03": dict(run=worker("hparse", 1500000, 80000000, compile_errors_violate=("hparse",))),
    "A04": dict(run=worker("hparse", 2000000, 100000000, compile_errors_violate=("hparse",))),
    "A05": dict(run=worker("hparse", 1500000, 80000000, compile_errors_violate=("hparse",))),
    "E01": dict(run=worker("hexamples", 60000, 1500000, compile_errors_violate=("hexamples",))),
    "E02": dict(run=worker("hexamples", 60000, 1500000, compile_errors_violate=("hexamples",))),
    "M01": dict(run=sanitized("hsan", "AddressSanitizer", (100000, 4000000), (96, 6000)),
                technique="AddressSanitizer and the Miri undefined-behaviour interpreter over generated workloads"),
    "M02": dict(run=sanitized("hsan", "ThreadSanitizer", (6000, 300000), (96, 6000), lambda s: "-Zmiri-preemption-rate=0.1" if s % 2 else ""),
                technique="ThreadSanitizer and the Miri race detector with random schedules over stress workloads"),
}
NA = {}
CRATES = ["hdecl", "hregex", "hstage", "hcore", "hnolog", "hlex", "hparse", "hexamples"]
