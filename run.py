#!/usr/bin/env python3
"""Runs the check of one property against /repo's current working tree.

usage: run.py PROP [--tier quick|thorough] [--replay FILE]

Builds the harness (and, where the check needs it, an instrumented overlay copy of the packages) from
/repo as it is now, runs it as an unprivileged user in a scratch directory, and writes
evidence/PROP.json. Exit 0: held on everything explored; exit 1: VIOLATION; anything else: error.
"""
import argparse, concurrent.futures, json, os, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known_findings.txt")

def goenv():
    env = dict(os.environ)
    env.pop("GOFLAGS", None)
    if os.path.exists("/opt/vp/env.sh"):
        o = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env -0"], capture_output=True).stdout.decode()
        for kv in o.split("\0"):
            if "=" in kv:
                k, v = kv.split("=", 1)
                if k.startswith("GO") or k in ("PATH", "HOME"):
                    env[k] = v
    env["CGO_ENABLED"] = env.get("CGO_ENABLED", "1")
    return env

# The scheduler of the instrumented build stands on testing/synctest of this version.
INSTR_GO = os.environ.get("VERIF_INSTR_GO", "go1.24")

def build(tmp, env, instr, race=False):
    """Returns the path of the harness binary, or None if it does not build."""
    repl = {}
    go = "go"
    if instr:
        go = INSTR_GO
        env = dict(env, GOEXPERIMENT="synctest", GOTOOLCHAIN="local")
    mc = os.path.join(VERIF, "mc")
    for f in sorted(os.listdir(mc)):
        if f.endswith(".go"):
            repl[os.path.join(REPO, "zz_verif/mc", f)] = os.path.join(mc, f)
    # the packages under shim are a module of their own, which only this build knows about
    modf = os.path.join(tmp, "go.mod")
    if not os.path.exists(modf):
        with open(modf, "w") as f:
            f.write(open(os.path.join(REPO, "go.mod")).read())
            f.write("\nrequire verif.local/shim v0.0.0\nreplace verif.local/shim => %s\n" % os.path.join(VERIF, "shim"))
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(tmp, "go.sum"))
    notes = []
    if instr:
        odir = os.path.join(tmp, "instr-" + instr.replace(",", "-") + ("-race" if race else ""))
        os.makedirs(odir)
        tool = os.path.join(tmp, "instrument")
        if not os.path.exists(tool):
            r = subprocess.run([go, "build", "-o", tool, "."], cwd=os.path.join(VERIF, "instr"), env=dict(env, GOFLAGS="-mod=mod"), capture_output=True, text=True)
            if r.returncode:
                sys.stderr.write(r.stdout + r.stderr); return None, ["instrumenter does not build"]
        r = subprocess.run([tool, "-repo", REPO, "-out", odir, "-modes", instr, "-go", go, "-shim", os.path.join(VERIF, "shim")], cwd=REPO, env=env, capture_output=True, text=True)
        if r.returncode:
            sys.stderr.write(r.stdout + r.stderr)
            return None, ["instrumentation failed: " + (r.stderr.strip().splitlines() or ["?"])[-1]]
        j = json.load(open(os.path.join(odir, "overlay.json")))
        repl.update(j["Replace"])
        notes = ["rewritten: " + " ".join("%s=%d" % x for x in sorted(j.get("Counts", {}).items()))]
    ov = os.path.join(tmp, "overlay.json")
    json.dump({"Replace": repl}, open(ov, "w"))
    binp = os.path.join(tmp, "mc-" + (instr.replace(",", "-") or "plain") + ("-race" if race else ""))
    cmd = [go, "build", "-mod=mod", "-modfile", modf, "-buildvcs=false", "-overlay", ov, "-o", binp]
    if race: cmd.append("-race")
    cmd.append("./zz_verif/mc")
    r = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout + r.stderr)
        return None, ["build failed"]
    os.chmod(binp, 0o755)
    return binp, notes

def demote():
    os.setsid()
    for n in (1 << 18, 1 << 16):
        try:
            resource.setrlimit(resource.RLIMIT_NOFILE, (n, n)); break
        except (ValueError, OSError): pass
    if os.geteuid() == 0:
        os.setgroups([]); os.setgid(65534); os.setuid(65534)
    os.umask(0o022)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--limit", type=int, default=0)
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--maxviol", type=int, default=25)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    cfg = json.load(open(os.path.join(VERIF, "checks.json"))).get(prop, {})
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    limit = a.limit or (cfg.get("quick_limit", 150) if tier == "quick" else cfg.get("thorough_limit", 700))
    t0 = time.time()
    env = goenv()
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="verif-")
    os.chmod(tmp, 0o755)
    shm = scratch(tmp)
    rc = 2
    try:
        a.shm = shm
        rc = run(a, prop, tier, cfg, seed, limit, t0, env, evdir, tmp)
    finally:
        if a.keep:
            print("kept", tmp)
        else:
            subprocess.run(["chmod", "-R", "u+rwX", tmp], stderr=subprocess.DEVNULL)
            shutil.rmtree(tmp, ignore_errors=True)
            if shm != tmp:
                subprocess.run(["chmod", "-R", "u+rwX", shm], stderr=subprocess.DEVNULL)
                shutil.rmtree(shm, ignore_errors=True)
    sys.exit(rc)

def scratch(tmp):
    """The boxes live in memory if there is room for them there (much faster than the disk)."""
    try:
        v = os.statvfs("/dev/shm")
        if v.f_bavail * v.f_frsize > 2 << 30:
            d = tempfile.mkdtemp(prefix="verif-", dir="/dev/shm")
            os.chmod(d, 0o755)
            return d
    except OSError:
        pass
    return tmp

def run_one(name, binp, prop, tier, seed, limit, tmp, a, extra, only):
    box = os.path.join(a.shm, "box-" + name)
    os.makedirs(os.path.join(box, "tmp"))
    out = os.path.join(box, "result.json")
    kn = os.path.join(box, "known.txt")
    shutil.copy(KNOWN, kn) if os.path.exists(KNOWN) else open(kn, "w").close()
    os.chmod(kn, 0o644)
    subprocess.run(["chown", "-R", "65534:65534", box])
    cmd = [binp, "-prop", prop, "-tier", tier, "-seed", str(seed), "-scratch", os.path.join(box, "tmp"), "-out", out,
           "-known", kn, "-limit", "%ds" % limit, "-maxviol", str(a.maxviol)] + extra
    if only: cmd += ["-case", only]
    if a.v: cmd += ["-v"]
    cenv = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": box, "TMPDIR": os.path.join(box, "tmp"), "GOTRACEBACK": "all", "TZ": "UTC", "XDG_CACHE_HOME": os.path.join(box, "xdg"), "GORACE": "halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path=%s/race" % box, "GODEBUG": "asynctimerchan=0"}
    log = open(os.path.join(box, "stderr"), "w+")
    p = subprocess.Popen(cmd, cwd=box, env=cenv, stderr=log, stdout=(None if a.v else log), preexec_fn=demote)
    hard = limit + 170
    try:
        prc = p.wait(timeout=hard)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.wait(); prc = "timeout"
    try: os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError: pass
    log.seek(0); err = log.read()
    res = None
    if os.path.exists(out):
        try: res = json.load(open(out))
        except Exception: res = None
    return prc, res, err

def take(a, prop, v, only, prc, res, err, viols, known):
    if res is None or prc != 0:
        if prc in (1, 2, 66) and ("panic:" in err or "fatal error:" in err or "DATA RACE" in err) and "HARNESS-ERROR" not in err and "harness:" not in err and "out of memory" not in err:
            # the code under test crashed the process (a panic outside the calling goroutine)
            viols.append({"case": only or "", "key": "crash", "msg": err[:6000], "variant": v})
            if res is None: return None
        else:
            sys.stderr.write(err[-6000:] + "\nharness ended with %s\n" % prc)
            return "error"
    for x in res["violations"] or []:
        x["variant"] = v; viols.append(x)
    for k in res["known"] or []:
        known[k["Key"]] = k["What"]
    return res["evidence"]

def merge(merged, ev):
    c, d = merged["coverage"], ev["coverage"]
    for k, val in d.items():
        if k == "exhaustive": c[k] = bool(c.get(k)) and bool(val)
        elif k in ("rule",): c[k] = c[k] if c[k] == val else c[k] + " | " + val
        elif k == "samples":
            c[k] = ((c.get(k) or []) + [x for x in val or [] if x not in (c.get(k) or [])])[:8]
        elif isinstance(val, (int, float)) and not isinstance(val, bool):
            c[k] = max(c.get(k, 0), val) if k.startswith("max") else c.get(k, 0) + val
        else: c.setdefault(k, val)
    return merged

def run(a, prop, tier, cfg, seed, limit, t0, env, evdir, tmp):
    only = None
    if a.replay:
        only = json.load(open(a.replay))["case"]
    variants = cfg.get("variants", [""])
    if a.replay:
        v = json.load(open(a.replay)).get("variant", "")
        variants = [v] if v in variants else variants
    per = max(20, limit // len(variants))
    merged = None; viols = []; known = {}; notes = []
    for i, v in enumerate(variants):
        race = v.endswith("race")
        instr = v[:-4].strip(",") if race else v
        binp, n = build(tmp, env, instr, race)
        notes += n
        if binp is None:
            if instr:
                # the instrumented copy does not build: fall back to the plain build for this variant
                notes.append("variant %r skipped: %s" % (v, n[-1] if n else "?"))
                if "" in variants: continue
                binp, n = build(tmp, env, "", race)
            if binp is None:
                print("ERROR: harness does not build against /repo", file=sys.stderr)
                return 2
        shards = cfg.get("shards" if tier == "quick" else "shards_thorough", cfg.get("shards", {})).get(v, 1)
        if shards == 1:
            outs = [run_one(str(i), binp, prop, tier, seed, per, tmp, a, [], only)]
        elif only:
            outs = [run_one(str(i), binp, prop, tier, seed, per, tmp, a, ["-shard", "0/1"], only)]
        else:
            end = time.time() + per
            bad = []
            def shard(k):
                left = end - time.time()
                if left < 1 or bad:
                    return None # no time left, or something was found already
                r = run_one("%d-%d" % (i, k), binp, prop, tier, seed, int(left) + 1, tmp, a, ["-shard", "%d/%d" % (k, shards)], only)
                if a.maxviol < 100 and (r[0] != 0 or r[1] is None or r[1]["violations"]): bad.append(k)
                return r
            with concurrent.futures.ThreadPoolExecutor(min(shards, 8)) as ex:
                outs = list(ex.map(shard, range(shards)))
            if None in outs:
                notes.append("%d of %d shards skipped" % (outs.count(None), shards))
                outs = [o for o in outs if o is not None]
        for prc, res, err in outs:
            r = take(a, prop, v, only, prc, res, err, viols, known)
            if r == "error": return 2
            if r is None: continue
            merged = r if merged is None else merge(merged, r)
    if merged is None:
        merged = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "exhaustive": False}}
    if notes:
        merged["coverage"]["build_notes"] = notes
        if any("skipped" in x for x in notes): merged["coverage"]["exhaustive"] = False
    merged["wall_s"] = round(time.time() - t0, 2)
    merged["violations"] = len(viols)
    merged["coverage"]["known_findings_seen"] = len(known)
    if not a.replay:
        json.dump(merged, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    rd = os.path.join(evdir, "replay")
    if not a.replay and os.path.isdir(rd):
        for f in os.listdir(rd):
            if f.startswith(prop + "-"): os.unlink(os.path.join(rd, f))
    c = merged["coverage"]
    print("%s %s: cases=%s evaluations=%s states=%s transitions=%s traces=%s exhaustive=%s wall=%.1fs" % (prop, tier, c.get("cases"), c.get("evaluations"), c.get("states"), c.get("transitions"), c.get("traces_validated_against_impl"), c.get("exhaustive"), merged["wall_s"]))
    bykey = {}
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s [%s]" % (prop, known[k], k))
    if viols:
        rd = os.path.join(evdir, "replay"); os.makedirs(rd, exist_ok=True)
        for i, x in enumerate(viols):
            f = os.path.join(rd, "%s-%d.json" % (prop, i))
            json.dump({"property": prop, **x, "how": "python3 run.py %s --replay %s" % (prop, f)}, open(f, "w"), indent=1)
            if i < 10:
                print("--- %s\n    %s" % (x["key"], x["msg"][:1500].replace("\n", "\n    ")))
                print("VIOLATION property=%s replay=%s" % (prop, f))
        return 1
    return 0

main()
