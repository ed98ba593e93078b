#!/usr/bin/env python3
"""check.py <property> [quick|thorough] | setup

Builds the monitors from /repo's working tree, runs the one for the property, and reports:
exit 0 held, exit 1 with a VIOLATION line, exit 2 no verdict.
"""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
TARGET = "x86_64-unknown-linux-gnu"
BASE_FLAGS = "-C target-cpu=x86-64-v3"
# name: (rustflags, cargo arguments, working directory, binary below the target directory)
BUILDS = {
    "hooked": (BASE_FLAGS + " --cfg panacea_verif", ["build"], HARNESS, "debug/pverif"),
    "plain": (BASE_FLAGS, ["build"], HARNESS, "debug/pverif"),
    "checked": (BASE_FLAGS + " --cfg panacea_verif", ["build", "--profile", "checked"], HARNESS, "checked/pverif"),
    "asan": (BASE_FLAGS + " -Zsanitizer=address --cfg panacea_san", ["+nightly", "build", "--target", TARGET], HARNESS, TARGET + "/debug/pverif"),
    "tsan": (BASE_FLAGS + " -Zsanitizer=thread --cfg panacea_san", ["+nightly", "build", "-Zbuild-std", "--target", TARGET], HARNESS, TARGET + "/debug/pverif"),
    "msan": (BASE_FLAGS + " -Zsanitizer=memory -Zsanitizer-memory-track-origins --cfg panacea_san", ["+nightly", "build", "-Zbuild-std", "--target", TARGET], HARNESS, TARGET + "/debug/pverif"),
    "cli": (BASE_FLAGS, ["build"], REPO, "debug/panacea"),
}
NEEDS_CLI = {"C23"}
# workloads of C10 and the number of cases (quick tier) per instrumentation
C10_LOADS = {
    "asan": [("C01", 24), ("C02", 16), ("C03", 24), ("C04", 24), ("C08", 10), ("C11", 24), ("C12", 24), ("C13", 40), ("C14", 24), ("C15", 24),
             ("C16", 8), ("C17", 12), ("C18", 7), ("C19", 16), ("C20", 24), ("C21", 300), ("C22", 200), ("C25", 40), ("C26", 12), ("C27", 24), ("C28", 12), ("C29", 40)],
    "msan": [("C01", 20), ("C02", 12), ("C03", 20), ("C04", 16), ("C08", 7), ("C11", 40), ("C13", 40), ("C14", 30), ("C15", 30), ("C16", 8), ("C17", 8), ("C18", 7),
             ("C19", 12), ("C20", 20), ("C21", 100), ("C25", 24), ("C26", 12), ("C27", 16), ("C28", 10), ("C29", 24)],
    "tsan": [("C01", 24), ("C02", 20), ("C03", 30), ("C08", 16), ("C20", 24), ("C26", 12), ("C27", 16), ("C28", 16)],
    "checked": [("C01", 60), ("C02", 40), ("C03", 60), ("C04", 60), ("C06", 3), ("C07", 10), ("C08", 10), ("C11", 100), ("C12", 100), ("C13", 100), ("C14", 100),
                ("C15", 60), ("C16", 24), ("C17", 40), ("C18", 14), ("C19", 40), ("C20", 60), ("C21", 1500), ("C22", 1000), ("C25", 100), ("C26", 40), ("C27", 60), ("C28", 30), ("C29", 200)],
}
# what makes a panic an error of C10: arithmetic, bounds, unsafe preconditions
TRAP = re.compile(r"attempt to .* (with overflow|by zero)|attempt to (divide|calculate)|out of bounds|out of range|unsafe precondition|misaligned|null pointer|"
                  r"RefCell|already (mutably )?borrowed|overflow|UninitSlice|slice length|source slice length|poison|PoisonError")
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


class NoVerdict(Exception):
    pass


def sources_hash():
    h = hashlib.sha256()
    roots = [REPO + "/src", REPO + "/Cargo.toml", REPO + "/Cargo.lock", REPO + "/benches", REPO + "/build.rs",
             HARNESS + "/src", HARNESS + "/Cargo.toml", HARNESS + "/Cargo.lock"]
    for r in roots:
        files = []
        if os.path.isdir(r):
            for d, _, fs in os.walk(r):
                files += [os.path.join(d, f) for f in fs]
        elif os.path.exists(r):
            files = [r]
        for f in sorted(files):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as x:
                h.update(hashlib.sha256(x.read()).digest())
    return h.hexdigest()


def build(name, required=True):
    """Path of the binary built from the current sources, or None."""
    flags, args, cwd, exe = BUILDS[name]
    tdir = os.path.join(BUILD, name if name != "checked" else "hooked")
    os.makedirs(tdir, exist_ok=True)
    out = os.path.join(tdir, exe)
    stamp = os.path.join(tdir, ".stamp-" + name)
    with open(os.path.join(BUILD, "." + os.path.basename(tdir) + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = sources_hash()
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have == want and os.path.exists(out):
            return out
        # time stamps say nothing in a copied tree: forget what was built from these two crates
        # (both layouts of target directories: .fingerprint/panacea-HASH and build/panacea/HASH)
        for d, dirs, _ in os.walk(tdir):
            if os.path.basename(d) in (".fingerprint", "build"):
                for f in list(dirs):
                    if f in ("panacea", "pverif") or f.startswith(("panacea-", "pverif-")):
                        shutil.rmtree(os.path.join(d, f), ignore_errors=True)
                dirs[:] = []
        if os.path.exists(out):
            os.remove(out)
        if os.path.exists(stamp):
            os.remove(stamp)
        env = dict(os.environ, RUSTFLAGS=flags, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_OPT_LEVEL="3", CARGO_TERM_COLOR="never")
        env.pop("CARGO_TARGET_DIR", None)
        env.pop("CARGO_BUILD_TARGET", None)
        p = subprocess.run(["cargo"] + args + ["--offline", "--target-dir", tdir], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0 or not os.path.exists(out):
            if required:
                sys.stdout.write("\n".join(l for l in p.stdout.splitlines() if not l.startswith("warning"))[-6000:] + "\n")
                raise NoVerdict("the %s build failed" % name)
            return None
        with open(stamp, "w") as f:
            f.write(want)
        return out


def run(cmd, env, limit):
    """(exit status, output); a process over the limit has no verdict."""
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        sys.stdout.write(out[-3000:])
        raise NoVerdict("time limit of %d s" % limit)
    return p.returncode, out


def known(pid):
    """Listed findings of the property: (text to look for in the error, description)."""
    res = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    except FileNotFoundError:
        pass
    return res


def violation(pid, replay, info):
    with open(replay, "w") as f:
        json.dump(info, f, indent=1)
    print("VIOLATION property=%s replay=%s" % (pid, replay))
    return 1


def crash_or_verdict(pid, rc, out, replay, cmd):
    """Verdict for an exit that is not one of the driver's own."""
    if rc < 0 and -rc in CRASH or rc in (128 + s for s in CRASH):
        sys.stdout.write(out[-3000:])
        print("the process was ended by signal %d" % (-rc if rc < 0 else rc - 128))
        return violation(pid, replay, {"property": pid, "error": "the process crashed (%d)" % rc, "cmd": cmd, "output": out[-4000:]})
    if rc == 7:
        sys.stdout.write(out[-3000:])
        return violation(pid, replay, {"property": pid, "error": "a call does not finish", "cmd": cmd, "output": out[-4000:]})
    sys.stdout.write(out[-3000:])
    raise NoVerdict("the monitor ended with status %d" % rc)


def base_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith(("RAYON_", "RUST_"))}
    env["RUST_BACKTRACE"] = "0"
    return env


def run_one(pid, tier, seed, evidence, replay):
    exe = build("hooked", required=False) or build("plain")
    env = base_env()
    if pid in NEEDS_CLI:
        env["PANACEA_BIN"] = build("cli")
    cmd = [exe, pid, "--seed", str(seed), "--tier", tier, "--out", evidence, "--replay", replay]
    rc, out = run(cmd, env, 700 if tier == "quick" else 5000)
    if rc in (0, 1, 3):
        sys.stdout.write(out)
        if rc == 1 and "VIOLATION property=" in out:
            return 1
        if rc == 0:
            return 0
        raise NoVerdict("inconclusive")
    return crash_or_verdict(pid, rc, out, replay, cmd)


def reports(kind, out):
    """Sanitizer reports that concern this crate."""
    if kind == "asan":
        return ["ERROR: AddressSanitizer" + x for x in out.split("ERROR: AddressSanitizer")[1:]]
    if kind == "msan":
        blocks = ["WARNING: MemorySanitizer" + x.split("SUMMARY: MemorySanitizer")[0] for x in out.split("WARNING: MemorySanitizer")[1:]]
        return [b for b in blocks if REPO + "/src/" in b]
    res = []
    for block in out.split("=================="):
        if "WARNING: ThreadSanitizer" in block and REPO + "/src/" in block:
            res.append(block)
    return res


def run_c10(tier, seed, evidence, replay):
    start = time.time()
    env = base_env()
    env["ASAN_OPTIONS"] = "exitcode=66:detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1"
    env["MSAN_OPTIONS"] = "exitcode=66:halt_on_error=0"
    env["TSAN_OPTIONS"] = "exitcode=66 halt_on_error=0 report_signal_unsafe=0 suppressions=" + os.path.join(VERIF, "tools", "tsan.supp")
    total = {"evaluations": 0, "distinct_nontrivial": 0}
    per, samples, bad = {}, [], None
    tmp = evidence + ".part"
    factor = 1 if tier == "quick" else 12
    for kind, loads in C10_LOADS.items():
        exe = build(kind, required=kind != "checked") or build("checked")
        for load, cases in loads:
            cmd = [exe, load, "--seed", str(seed), "--light", "--cases", str(cases * factor), "--secs", "60" if tier == "quick" else "500", "--out", tmp, "--replay", replay]
            if os.path.exists(tmp):
                os.remove(tmp)
            rc, out = run(cmd, env, 600 if tier == "quick" else 3000)
            reps = reports(kind, out) if kind != "checked" else []
            ev = json.load(open(tmp)) if os.path.exists(tmp) else None
            if ev:
                c = ev["coverage"]
                total["evaluations"] += c["evaluations"]
                total["distinct_nontrivial"] += c["distinct_nontrivial"]
                per["%s/%s" % (kind, load)] = {"cases": c["cases"], "evaluations": c["evaluations"], "wall_s": round(ev["wall_s"], 2)}
                if c["samples"] and len(samples) < 6:
                    samples.append("%s/%s %s" % (kind, load, c["samples"][0]))
            if reps:
                bad = ("%s reports %d error(s) in workload %s" % (kind, len(reps), load), reps[0][:8000], cmd)
            elif rc < 0 and -rc in CRASH or rc in (128 + s for s in CRASH):
                bad = ("workload %s crashed under %s (status %d)" % (load, kind, rc), out[-4000:], cmd)
            elif rc == 1:
                # a functional violation is for its own check; traps are violations of this property
                r = json.load(open(replay))
                traps = [e["error"] for e in r.get("all", []) if "panic" in e["error"] and TRAP.search(e["error"])]
                if traps:
                    bad = ("workload %s traps under %s: %s" % (load, kind, traps[0]), json.dumps(r), cmd)
                else:
                    print("note: %s/%s: %s" % (kind, load, r.get("error")))
            elif rc == 66 or rc == 0 or rc == 7 or rc == 3:
                # 66 without a report on this crate: a report on the runtime libraries alone
                pass
            else:
                sys.stdout.write(out[-3000:])
                raise NoVerdict("%s/%s ended with status %d" % (kind, load, rc))
            if bad:
                break
        if bad:
            break
    if os.path.exists(tmp):
        os.remove(tmp)
    json.dump({"property": "C10", "tier": tier, "seed": seed, "level": "exploration",
               "coverage": dict(total, rule="executions of the other properties' workloads under AddressSanitizer, MemorySanitizer, ThreadSanitizer and overflow/debug-assertion builds; "
                                "distinct by each workload's own rule", samples=samples, workloads=per),
               "wall_s": round(time.time() - start, 2), "violations": 1 if bad else 0}, open(evidence, "w"), indent=1)
    if bad:
        print(bad[0])
        print(bad[1][:3000])
        return violation("C10", replay, {"property": "C10", "error": bad[0], "report": bad[1], "cmd": bad[2]})
    if total["evaluations"] < 300:
        raise NoVerdict("only %d evaluations" % total["evaluations"])
    print("C10: %d evaluations under instrumentation, %d workloads" % (total["evaluations"], len(per)))
    return 0


def main():
    if sys.argv[1] == "setup":
        for n in ("hooked", "checked", "cli", "asan", "msan", "tsan"):
            t = time.time()
            build(n)
            print("%s built in %.0f s" % (n, time.time() - t), flush=True)
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    evidence = os.path.join(VERIF, "evidence", pid + ".json")
    replay = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (pid, tier, seed))
    for f in (evidence, replay):
        if os.path.exists(f):
            os.remove(f)
    for _, text in known(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    if pid == "C10":
        return run_c10(tier, seed, evidence, replay)
    return run_one(pid, tier, seed, evidence, replay)


if __name__ == "__main__":
    try:
        code = main()
    except NoVerdict as e:
        print("NO VERDICT: %s" % e)
        code = 2
    sys.stdout.flush()
    sys.exit(code)
