#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--config NAME,...] [--only SWEEP] [--replay FILE] [--build-only]

Builds the property's enumeration binary (mc/src/bin/<property>.rs) against /repo's working tree in every
build configuration, runs it, aggregates the reports, writes evidence/<PROPERTY>.json and decides:
exit 0 = held on everything explored, exit 1 + VIOLATION line = broken, anything else = the check failed.
"""
import sys, os, json, subprocess, time, re, signal, argparse, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
# name -> (toolchain, target features, cargo features, required)
CONFIGS = {
    "scalar":  (STABLE, "", "no_intrinsics", True),
    "sse2":    (STABLE, "", "", True),
    "sse3":    (STABLE, "+sse3", "", True),
    "sse41":   (STABLE, "+sse3,+sse4.1", "", True),
    "avx":     (STABLE, "+sse3,+sse4.1,+avx", "", True),
    "f16c":    (STABLE, "+sse3,+sse4.1,+avx,+f16c", "", True),
    "fma":     (STABLE, "+sse3,+sse4.1,+avx,+f16c,+fma", "", True),
    "avx2":    (STABLE, "+sse3,+sse4.1,+avx,+f16c,+fma,+avx2", "", True),
    # not built by the repository's own suite: a build failure here is reported, not judged
    "intel":   (STABLE, "+sse3,+sse4.1,+avx,+f16c,+fma,+avx2", "favor_intel", False),
    "special": (NIGHTLY, "", "no_intrinsics,specialization", True),
    # C26 once more with the library's precondition assertions on
    "dbgscalar": (STABLE, "", "no_intrinsics", True),
    "dbgsse2": (STABLE, "", "", True),
}
STD = ["scalar", "sse2", "sse3", "sse41", "avx", "f16c", "fma", "avx2", "intel"]
# Properties whose domain also includes the nightly trait specializations.
EXTRA = {"C01": ["special"], "C26": ["dbgscalar", "dbgsse2"]}
PROFILE = {"C26": "mcrel"}

def profile(prop, cfg):
    return "mc" if cfg.startswith("dbg") else PROFILE.get(prop, "mc")

RUN_TIMEOUT = {"quick": 400, "thorough": 6 * 3600}
HANG_TIMEOUT = {"quick": 150, "thorough": 3600}

def prop_configs(prop):
    return STD + EXTRA.get(prop, [])

def env_for(cfg):
    tc, tf, feats, _ = CONFIGS[cfg]
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN=tc,
             CARGO_TARGET_DIR=os.path.join(VERIF, "target", cfg),
             RUSTFLAGS="-C target-cpu=x86-64 --cap-lints warn" + (f" -C target-feature={tf}" if tf else ""), RUSTC_WRAPPER="")
    e.pop("CARGO_ENCODED_RUSTFLAGS", None)
    return e

def source_hash():
    """Content hash of everything a binary is built from: never trust file times across sandbox copies."""
    h = hashlib.sha256()
    roots = ["/repo/src", "/repo/build.rs", "/repo/Cargo.toml", os.path.join(VERIF, "mc", "Cargo.toml")]
    for r in roots:
        fs = [r] if os.path.isfile(r) else sorted(os.path.join(d, f) for d, _, n in os.walk(r) for f in n)
        for f in fs:
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()

SRC_HASH = None

def build(prop, cfg):
    tdir = os.path.join(VERIF, "target", cfg)
    stamp = os.path.join(tdir, "source.sha256")
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != SRC_HASH and os.path.isdir(tdir):
        for d in ("mc", "mcrel"):
            shutil.rmtree(os.path.join(tdir, d), ignore_errors=True)
    os.makedirs(tdir, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(SRC_HASH)
    feats = CONFIGS[cfg][2]
    prof = profile(prop, cfg)
    cmd = ["cargo", "build", "--offline", "--quiet", "--profile", prof, "--bin", prop.lower(), "-j", "2"]
    if feats:
        cmd += ["--features", feats]
    for attempt in range(2):
        p = subprocess.run(cmd, cwd=os.path.join(VERIF, "mc"), env=env_for(cfg), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            return os.path.join(VERIF, "target", cfg, prof, prop.lower()), ""
    return None, p.stdout[-6000:]

def out_path(prop, cfg):
    return os.path.join(VERIF, "target", cfg, prop.lower() + ".out")

def run_bin(path, prop, cfg, tier, only=None, timeout=None):
    """-> dict(status=ok|crash|hang, result, last, detail)"""
    e = env_for(cfg)
    e.update(VERIF_TIER=tier, MC_CONFIG=cfg, MC_ONLY=only or "", RUST_BACKTRACE="0", MC_OUT=out_path(prop, cfg))
    p = subprocess.Popen([path], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=VERIF)
    try:
        out, err = p.communicate(timeout=timeout or RUN_TIMEOUT[tier])
        hung = False
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        hung = True
    last = None
    res = None
    for line in out.splitlines():
        if line.startswith("BEGIN "):
            last = line[6:].strip()
        elif line.startswith("RESULT "):
            res = json.loads(line[7:])
    if hung:
        return dict(status="hang", last=last, result=None, detail="no result within the time limit")
    if res is not None and p.returncode == 0:
        return dict(status="ok", last=last, result=res, detail="")
    if p.returncode < 0:
        try:
            nm = signal.Signals(-p.returncode).name
        except ValueError:
            nm = str(p.returncode)
        return dict(status="crash", last=last, result=None, detail=f"killed by {nm}", sig=-p.returncode)
    return dict(status="error", last=last, result=None, detail=f"exit {p.returncode}: {err[-2000:]}")

def judge_config(path, prop, cfg, tier, only):
    r = run_bin(path, prop, cfg, tier, only)
    if r["status"] in ("crash", "hang") and r["last"] and r.get("sig") not in (signal.SIGKILL, signal.SIGTERM):
        # The harness itself is deterministic: the same sweep alone must fail the same way.
        r2 = run_bin(path, prop, cfg, tier, r["last"], HANG_TIMEOUT[tier])
        if r2["status"] == r["status"]:
            v = dict(op=r["last"], input="(whole sweep)", got=r["detail"], want="normal return")
            return dict(status="ok", result=dict(property=prop, config=cfg, wall_s=0, seqs=0, samples=[], notes=[],
                        ops={r["last"]: dict(states=0, transitions=0, fails=1, outcomes=0, panicked=True)}, violations=[v]))
        return dict(status="error", detail=f"{r['status']} in {r['last']} did not reproduce", last=r["last"], result=None)
    return r

def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])

def known_match(known, prop, cfg, v):
    for k in known:
        if k["property"] == prop and k["op"] == v["op"] and ("configs" not in k or cfg in k["configs"]) \
           and re.search(k.get("input", ""), v["input"]) and re.search(k.get("got", ""), v["got"]):
            return k
    return None

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--config")
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--build-only", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, ("thorough" if a.tier == "thorough" else "quick")
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    global SRC_HASH
    SRC_HASH = source_hash()
    t0 = time.time()
    cfgs = a.config.split(",") if a.config else prop_configs(prop)
    only = a.only
    if a.replay:
        rep = json.load(open(a.replay))
        cfgs, only = [rep["config"]], rep["op"]
    agree = None
    if only and only.endswith(" agreement"):
        # a disagreement is replayed by re-running both sides of the comparison
        agree, only = only, only[:-len(" agreement")]
        cfgs = ["scalar"] + [c for c in cfgs if c != "scalar"]
    full = not (a.config or a.only or a.replay)
    errors, notes, results = [], [], {}

    def one(cfg):
        path, log = build(prop, cfg)
        if path is None:
            return cfg, dict(status="build", detail=log)
        if a.build_only:
            return cfg, dict(status="built")
        return cfg, judge_config(path, prop, cfg, tier, only)

    with ThreadPoolExecutor(max_workers=len(cfgs)) as ex:
        for cfg, r in ex.map(one, cfgs):
            if r["status"] == "built":
                continue
            if r["status"] == "build":
                if CONFIGS[cfg][3]:
                    errors.append(f"{cfg}: build failed\n{r['detail']}")
                else:
                    notes.append(f"configuration {cfg} does not build; not covered in this run")
            elif r["status"] == "ok":
                results[cfg] = r["result"]
            else:
                errors.append(f"{cfg}: {r['status']} {r.get('last')} {r['detail']}")
    if a.build_only:
        for e in errors: print(e, file=sys.stderr)
        sys.exit(2 if errors else 0)

    from compare import compare  # cross-configuration comparison for C25
    if prop == "C25" and not errors:
        paths = {c: os.path.join(VERIF, "target", c, profile(prop, c), prop.lower()) for c in results}
        cmpres, cerr = compare(results, paths, {c: out_path(prop, c) for c in results}, tier, agree)
        errors += cerr
        for c, r in cmpres.items():
            results[c]["ops"].update(r["ops"])
            results[c]["violations"] += r["violations"]
        for c in results:
            if os.path.exists(out_path(prop, c)):
                os.remove(out_path(prop, c))

    known = load_known()
    viols, found = [], {}
    for cfg, r in results.items():
        for v in r["violations"]:
            k = known_match(known, prop, cfg, v)
            if k:
                found[k["what"]] = k
            else:
                viols.append((cfg, v))
    states = max((sum(o["states"] for o in r["ops"].values()) for r in results.values()), default=0)
    trans = sum(o["transitions"] for r in results.values() for o in r["ops"].values())
    sweeps = sum(1 for r in results.values() for o in r["ops"].values() if not o["panicked"])
    seqs = sum(r["seqs"] for r in results.values())
    samples = []
    for r in list(results.values())[:1]:
        samples = r["samples"][:12]
    vac = sorted({f"{o}" for r in results.values() for o, s in r["ops"].items() if s["transitions"] == 0 and not s["panicked"]})
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=states, transitions=trans, traces_validated_against_impl=sweeps + seqs,
                            samples=samples or ["(none)"], exhaustive=True, configurations=sorted(results),
                            sweeps_completed=sweeps, multi_step_sequences=seqs,
                            sweeps={o: dict(states=max(r["ops"][o]["states"] for r in results.values() if o in r["ops"]),
                                            transitions=sum(r["ops"][o]["transitions"] for r in results.values() if o in r["ops"]),
                                            distinct_outcomes=max(r["ops"][o]["outcomes"] for r in results.values() if o in r["ops"]))
                                    for o in sorted({o for r in results.values() for o in r["ops"]})},
                            notes=notes + sorted({n for r in results.values() for n in r["notes"]})),
              assumptions=["the reference model in mc/src is the specification", "x86_64 host; NEON bodies are not executable here",
                           "only the finite operand domains stated in DESIGN.md are covered"],
              wall_s=round(time.time() - t0, 2), violations=len(viols))
    if full:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for w in found:
        print(f"KNOWN-FINDING: property={prop} {w}")
    seen = set()
    for cfg, v in viols:
        key = (cfg, v["op"])
        if key in seen and not a.v:
            continue
        seen.add(key)
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, re.sub(r"[^A-Za-z0-9_.-]", "_", f"{prop}-{cfg}-{v['op']}") + ".json")
        allv = [x for c, x in viols if c == cfg and x["op"] == v["op"]]
        json.dump(dict(property=prop, config=cfg, op=v["op"], counterexamples=allv, tier=tier,
                       replay_cmd=f"cd {VERIF} && VERIF_TIER={tier} python3 check.py {prop} --replay {rp}"), open(rp, "w"), indent=1)
        print(f"VIOLATION property={prop} replay={rp}")
        print(f"  [{cfg}] {v['op']} input={v['input'][:700]}\n     got={v['got'][:500]}\n     want={v['want'][:500]}")
    for e in errors:
        print("ERROR " + e, file=sys.stderr)
    print(f"{prop} {tier}: configs={len(results)} sweeps={sweeps} states={states} transitions={trans} violations={len(viols)} wall={ev['wall_s']}s")
    if vac:
        print("VACUOUS sweeps: " + ", ".join(vac), file=sys.stderr)
    if viols:
        sys.exit(1)
    if errors or (vac and full) or not results:
        sys.exit(2)
    sys.exit(0)

if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    main()
