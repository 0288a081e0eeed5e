#!/usr/bin/env python3
"""Driver of the checks.

  check.py build            build the harness from /repo's working tree
  check.py ID [quick|thorough]   decide property ID
  check.py replay FILE      re-run the case in a replay file (exit 1: it still fails)

Exit 0: held on everything explored. 1: VIOLATION line printed. 2: no answer.
"""
import fcntl, hashlib, json, os, re, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.path.normpath(os.path.join(HERE, "..", "repo"))
HARNESS = os.path.join(HERE, "harness")
WORK = os.path.join(HERE, "work")
REPLAYS = os.path.join(HERE, "replays")
EVIDENCE = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known-findings.txt")
# cases of the quick tier, relative to the numbers in the suite: the cheap checks can afford more
QUICK = {"C04": 3, "C05": 2.5, "C06": 3, "C07": 5, "C08": 1.5, "C09": 2, "C10": 2, "C11": 1.5, "C12": 5, "C13": 4, "C14": 3, "C15": 2, "C16": 3,
         "C17": 1.5, "C18": 4, "C19": 4, "C20": 5, "C21": 4, "C22": 4, "C23": 4}
PROFILES = (("release", "suite_rel"), ("debug-assertions", "suite_dbg"))


def tree_hash():
    """Everything of /repo the build reads."""
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def cargo(args, target, flags, timeout):
    env = dict(os.environ)
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    env.update(CARGO_TARGET_DIR=target, RUSTFLAGS=flags, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable",
               CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    for k in [k for k in env if k.startswith("CARGO_PROFILE_") or k in ("CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET")]:
        del env[k]
    return subprocess.run(["cargo"] + args, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", timeout=timeout)


def build():
    """Build both suites from /repo's current tree; returns the directory of the binaries."""
    errors = []
    for name, flags in (("target", "--cfg zkhash_verif"), ("target_nohooks", "")):
        target = os.path.join(HARNESS, name)
        os.makedirs(target, exist_ok=True)
        with open(os.path.join(target, ".driver.lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            stamp = os.path.join(target, ".tree")
            want = tree_hash()
            try:
                have = open(stamp).read()
            except OSError:
                have = ""
            # cargo goes by modification times; do not trust those of a copied tree
            if have != want and os.path.isdir(os.path.join(target, "release")):
                if have:
                    os.remove(stamp)
                cargo(["clean", "--release", "--offline", "-p", "zkhash", "-p", "zkhash_dbg", "-p", "verif-harness"], target, flags, 120)
            r = cargo(["build", "--release", "--offline"], target, flags, 800)
            if r.returncode == 0:
                with open(stamp, "w") as f:
                    f.write(want)
                return os.path.join(target, "release"), (not flags)
            errors.append(r.stdout)
    for e in errors:
        sys.stderr.write(e[-6000:])
    return None, False


def known():
    """{property: {key: line}} of the findings that are known and not repaired."""
    res = {}
    for line in open(KNOWN):
        m = re.match(r"KNOWN-FINDING: property=(\S+) (?:instance=(\S+) )?(.*)", line.strip())
        if m:
            res.setdefault(m.group(1), {})[m.group(2) or m.group(3)] = line.strip()
    return res


def write_replay(failure):
    os.makedirs(REPLAYS, exist_ok=True)
    body = json.dumps(failure, indent=1)
    path = os.path.join(REPLAYS, "%s-%s-%s.json" % (failure["property"], failure["profile"], hashlib.sha256(body.encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        f.write(body + "\n")
    return path


def check_script(pid, tier, seed, t0):
    """The parameter generation script, which is no part of the crate: nothing to build."""
    sys.path.insert(0, os.path.join(HERE, "script"))
    sys.dont_write_bytecode = True
    import gencheck
    coverage, failures, note = gencheck.run(tier, seed, REPO)
    for f in failures:
        f.update(seed=seed, tier=tier)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
        "assumptions": [
            "the stand-in for Sage in /verif/script/sagelike.py",
            "the reference in /verif/script/gencheck.py",
            "generated inputs only: nothing is shown about inputs that were not generated",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": len(failures), "known_findings": [], "undecided": note,
    }
    with open(os.path.join(EVIDENCE, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for f in failures:
        print("%s [%s / %s]: %s" % (pid, f["profile"], f["check"], f["message"][:2000]))
        print("VIOLATION property=%s replay=%s" % (pid, write_replay(f)))
    if failures:
        return 1
    if note:
        print("check %s could not decide every case: %s" % (pid, note))
    print("%s held: %d cases, %d distinct non-trivial (%s tier, seed %d, %.0f s)" % (
        pid, coverage["evaluations"], coverage["distinct_nontrivial"], tier, seed, time.time() - t0))
    return 0


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    for d in (WORK, EVIDENCE):
        os.makedirs(d, exist_ok=True)
    if pid == "C24":
        return check_script(pid, tier, seed, t0)
    bindir, degraded = build()
    if not bindir:
        print("check %s: /repo's tree does not build with the harness" % pid)
        return 2
    t_build = time.time() - t0
    if degraded:
        print("check %s: built without the hooks (the tree does not build with them)" % pid)
    env = dict(os.environ, VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_REPO=REPO)
    env.pop("RUST_BACKTRACE", None)
    limit = 6900 if tier == "thorough" else 360
    results, failures, errors = [], [], []
    for profile, binary in PROFILES:
        out = os.path.join(WORK, "%s-%s-%d.json" % (pid, binary, os.getpid()))
        if os.path.exists(out):
            os.remove(out)
        scale = str(QUICK.get(pid, 2)) if tier == "quick" else "1"
        p = subprocess.Popen([os.path.join(bindir, binary), "run", pid, "--out", out, "--scale", scale], env=env, start_new_session=True)
        try:
            rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            errors.append("%s: no result within %d s" % (binary, limit))
            continue
        if rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGILL, -signal.SIGBUS, -signal.SIGFPE):
            failures.append({"property": pid, "profile": profile, "check": "process", "seed": seed, "tier": tier,
                             "message": "the process ended by signal %d" % -rc})
            continue
        if not os.path.exists(out):
            errors.append("%s: ended with %d and no result" % (binary, rc))
            continue
        r = json.load(open(out))
        os.remove(out)
        results.append((profile, r))
        for f in r["failures"]:
            f.update(seed=seed, tier=tier)
            failures.append(f)
        if r["harness_error"]:
            errors.append("%s: %s" % (binary, r["harness_error"]))
        if failures:
            break
    # findings that are listed as known are reported, not counted
    kf = known().get(pid, {})
    seen = {}
    for profile, r in results:
        for d in r["differ"]:
            seen.setdefault(d["instance"], (profile, d["what"]))
    for name, (profile, what) in sorted(seen.items()):
        if name in kf:
            continue
        failures.append({"property": pid, "profile": profile, "check": "differs between processes", "instance": name,
                         "seed": seed, "tier": tier, "message": what})
    merged = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "checks": {}}
    for profile, r in results:
        c = r["coverage"]
        merged["evaluations"] += c["evaluations"]
        merged["distinct_nontrivial"] += c["distinct_nontrivial"]
        merged["rule"] = c["rule"]
        merged["samples"] += [dict(s, build=profile) for s in c["samples"]]
        merged["checks"][profile] = c["checks"]
    merged["samples"] = merged["samples"][:12]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": merged,
        "assumptions": [
            "arithmetic of the ark-ff, ff, sha2, sha3 and blake2 crates",
            "the reference models in /verif/harness/src/suite",
            "generated inputs only: nothing is shown about inputs that were not generated",
        ],
        "hooks": not degraded, "build_s": round(t_build, 1), "wall_s": round(time.time() - t0, 2), "violations": len(failures),
        "known_findings": sorted(k for k in kf if k in seen),
    }
    with open(os.path.join(EVIDENCE, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for name in sorted(kf):
        if name in seen:
            print(kf[name])
    if failures:
        for f in failures[:5]:
            print("%s [%s / %s]: %s" % (pid, f["profile"], f["check"], f["message"][:2000]))
            print("VIOLATION property=%s replay=%s" % (pid, write_replay(f)))
        return 1
    if errors:
        print("check %s gave no answer: %s" % (pid, "; ".join(errors)))
        return 2
    print("%s held: %d cases, %d distinct non-trivial (%s tier, seed %d, %.0f s)" % (
        pid, merged["evaluations"], merged["distinct_nontrivial"], tier, seed, time.time() - t0))
    return 0


def replay(path):
    f = json.load(open(path))
    if f["profile"] == "script":
        sys.path.insert(0, os.path.join(HERE, "script"))
        sys.dont_write_bytecode = True
        import gencheck
        return gencheck.replay(f, REPO)
    bindir, _ = build()
    if not bindir:
        return 2
    binary = dict(PROFILES)[f["profile"]]
    if "tape" in f:
        return subprocess.run([os.path.join(bindir, binary), "replay", f["property"], path]).returncode
    # a crash of the process, or a difference between processes: run it again
    out = os.path.join(WORK, "replay-%d.json" % os.getpid())
    os.makedirs(WORK, exist_ok=True)
    env = dict(os.environ, VERIF_TIER=f["tier"], VERIF_SEED=str(f["seed"]), VERIF_REPO=REPO)
    scale = str(QUICK.get(f["property"], 2)) if f["tier"] == "quick" else "1"
    rc = subprocess.run([os.path.join(bindir, binary), "run", f["property"], "--out", out, "--scale", scale], env=env).returncode
    if rc < 0:
        return 1
    r = json.load(open(out))
    os.remove(out)
    return 1 if r["failures"] or any(d["instance"] == f.get("instance") for d in r["differ"]) else 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["build"]:
        bindir, degraded = build()
        print("built %s%s" % (bindir, " without the hooks" if degraded else ""))
        return 0 if bindir else 1
    if a[:1] == ["replay"]:
        return replay(os.path.abspath(a[1]))
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(a[0], tier if tier in ("quick", "thorough") else "quick")


sys.exit(main())
