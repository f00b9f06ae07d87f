#!/usr/bin/env python3
"""C22: the same bounded space of consignments is explored under every build configuration, and every
outcome (verdict, error text, everything reported to the contract) must be the same."""
import concurrent.futures, itertools, json, os, re, subprocess, sys, time

VERIF = os.environ.get("VERIF_DIR", os.path.dirname(os.path.abspath(__file__)))
H = f"{VERIF}/harness"
TGT = os.environ.get("CARGO_TARGET_DIR", f"{H}/target-c22")
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
START = time.time()
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TARGET_DIR=TGT, VERIF_DIR=VERIF)
for k in ("MC_CASES", "MC_TWICE", "MC_REVERSE", "RUSTFLAGS", "MC_TIMES"):
    ENV.pop(k, None)

def sh(cmd, cwd, env=None, timeout=3000):
    t = time.time()
    r = sh_(cmd, cwd, env, timeout)
    if "MC_TIMES" in os.environ:
        print(f"{time.time()-t:7.1f}s {' '.join(cmd[:2])} {cmd[-1][-60:]}", file=sys.stderr)
    return r

def sh_(cmd, cwd, env, timeout):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def with_bitcoin(feats):
    return any(f in feats for f in ("bitcoin", "liquid", "default", "all"))

def build(feats, profile):
    """-> path of the explorer built in the given configuration, or the compiler's output"""
    fl = [f"f_{f}" for f in feats]
    if with_bitcoin(feats):
        fl.append("btc")
    r = sh(["cargo", "build", "--offline", "--profile", profile, "--features", ",".join(fl)], H)
    if r.returncode != 0:
        return None, r.stdout
    src = f"{TGT}/{profile}/mc"
    name = f"{TGT}/mc-{profile}-{'-'.join(feats) or 'none'}"
    subprocess.run(["cp", src, name], check=True)
    return name, ""

def run(exe, tier=None, **extra):
    env = dict(ENV, **extra)
    r = sh([exe, "digest"], H, env)
    kits = {}
    for l in r.stdout.splitlines():
        m = re.match(r"DIGEST (\w+) ([0-9a-f]{16}) evaluations=(\d+) operations=(\d+) states=(\d+) families=(\d+) deviations=(\d+)", l)
        if m:
            kits[m[1]] = dict(digest=m[2], evaluations=int(m[3]), operations=int(m[4]), states=int(m[5]), families=int(m[6]), deviations=int(m[7]))
    unstable = [l.strip() for l in r.stdout.splitlines() if l.startswith("  UNSTABLE")]
    if r.returncode != 0 or "mock" not in kits:
        print(f"C22: the explorer failed ({r.returncode}): {r.stdout[-2000:]}")
        sys.exit(2)
    return kits, unstable

def title(c):
    return f"{'+'.join(c[0]) or 'no features'} ({c[1]})"

viols = []
def violation(what, replay):
    os.makedirs(f"{VERIF}/replays", exist_ok=True)
    path = f"{VERIF}/replays/C22-{len(viols)}.json"
    replay = dict(property="C22", deviation=what, how_to_replay="cd /verif && ./check.sh replay <this file>", **replay)
    json.dump(replay, open(path, "w"), indent=1)
    viols.append(what)
    print(f"C22: {what}")
    print(f"VIOLATION property=C22 replay={path}", flush=True)

def first_difference(a, b, kit):
    """the first case the two explorers disagree upon"""
    res = {}
    for n, exe in (("a", a), ("b", b)):
        path = f"{TGT}/cases-{n}"
        run(exe, MC_CASES=path)
        res[n] = {}
        for l in open(f"{path}.{kit}", errors="replace").read().split("\n"):
            p = l.split("\x01", 3)
            if len(p) == 4:
                res[n].setdefault((p[0], p[1]), p[2:])
    for k in sorted(set(res["a"]) | set(res["b"])):
        x, y = res["a"].get(k), res["b"].get(k)
        if x != y:
            return dict(family=k[0], case=k[1], one=(x or ["", "absent"])[1][:600], other=(y or ["", "absent"])[1][:600])
    return dict(family="?", case="the difference is not reproducible", one="", other="")

BASE = (["default"], "release" if THOROUGH else "matrix")
FEATS = ["std", "bitcoin", "liquid", "prime", "serde"]

def configs():
    if not THOROUGH:
        # with the default features (std+bitcoin): every pair of features both on, both off, one without the other
        sets = [[], ["liquid", "serde"], ["bitcoin", "prime", "serde"], ["std", "liquid", "prime"], ["all"]]
        return [(s, "matrix") for s in sets] + [(["all"], "checked")]
    sets = [list(s) for n in range(6) for s in itertools.combinations(FEATS, n)] + [["all"]]
    return [(s, "matrix") for s in sets] + [(["all"], "checked"), ([], "checked"), (["default"], "checked"), (["default"], "unoptimized")]

PROBES = [([], False), (["std", "prime", "serde"], False), (["bitcoin"], True), (["liquid"], True), (["default"], True), (["all"], True)]

def main():
    exe, err = build(*BASE)
    if exe is None:
        print(err[-3000:])
        print("C22: the explorer can't be built")
        return 2
    base, unstable = run(exe)
    table = {title(BASE): base}
    totals = dict(evals=0, ops=0)
    def count(kits):
        for k in kits.values():
            totals["evals"] += k["evaluations"]
            totals["ops"] += k["operations"]
    count(base)
    # another process, each evaluation repeated, cases explored in the opposite order
    again, unstable = run(exe, MC_TWICE="1", MC_REVERSE="1")
    table["repeated in another process, in the opposite order, each evaluation twice"] = again
    count(again); count(again)
    for u in unstable[:3]:
        violation(f"the outcome differs between repetitions: {u}", dict(kind="repeat", config=BASE))
    for kit in base:
        if base[kit]["digest"] != again[kit]["digest"] and not unstable:
            d = first_difference(exe, exe, kit)
            violation(f"the outcomes differ from run to run ({kit} seals): {d}", dict(kind="repeat", config=BASE))
    # the next configurations are built while the explorers of the previous ones run
    pool = concurrent.futures.ThreadPoolExecutor(1)
    todo = [(c, pool.submit(build, *c)) for c in configs()]
    for n, (c, fut) in enumerate(todo):
        if viols and not THOROUGH:
            print(f"C22: a violation is found, {len(todo) - n} more configuration(s) are not explored")
            for _, f in todo:
                f.cancel()
            break
        e, err = fut.result()
        if e is None:
            lines = [l for l in err.splitlines() if l.startswith("error")]
            violation(f"does not build with {title(c)}, although it does with {title(BASE)}: {'; '.join(lines[:4])}", dict(kind="build", config=c, log=err[-4000:]))
            continue
        kits, _ = run(e)
        table[title(c)] = kits
        count(kits)
        for kit, v in sorted(kits.items(), reverse=True):
            if v["digest"] != base[kit]["digest"]:
                if viols and (not THOROUGH or len(viols) > 8):
                    violation(f"with {title(c)} the outcomes differ from {title(BASE)} ({kit} seals)",
                        dict(kind="config", config=c, base=BASE, kit=kit))
                    continue
                d = first_difference(exe, e, kit)
                violation(
                    f"with {title(c)} the outcome differs from {title(BASE)} ({kit} seals) in {d['family']}/{d['case']}: {d['other']} instead of {d['one']}",
                    dict(kind="config", config=c, base=BASE, kit=kit, difference=d))
        os.remove(e)
    probes = {}
    for feats, want in PROBES:
        r = sh(["cargo", "check", "--offline", "--features", ",".join(f"f_{f}" for f in feats)], f"{H}/probe")
        have = r.returncode == 0
        missing = "E0277" in r.stdout and "RgbSeal" in r.stdout
        name = "+".join(feats) or "no features"
        probes[name] = "available" if have else "missing" if missing else "does not build"
        if want and not have:
            violation(f"bitcoin seals are not available with {name}", dict(kind="probe", config=(feats, "check"), log=r.stdout[-3000:]))
        elif not want and have:
            violation(f"bitcoin seals are available with {name}", dict(kind="probe", config=(feats, "check"), log=r.stdout[-3000:]))
        elif not want and not missing:
            violation(f"can't be used with {name}", dict(kind="probe", config=(feats, "check"), log=r.stdout[-3000:]))
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    json.dump(dict(
        property="C22", tier="thorough" if THOROUGH else "quick", seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
        coverage=dict(
            states=sum(k["states"] for k in base.values()), transitions=totals["ops"], traces_validated_against_impl=totals["evals"],
            samples=[dict(configuration=n, digests=k) for n, k in table.items()], exhaustive=not viols,
            configurations=len(table), bitcoin_seal_probes=probes),
        assumptions=["the reference is the outcome under the default features and the release profile",
                     "configurations other than those listed are not covered",
                     "cargo features outside of rgb-core (those of its dependencies) are not varied on their own"],
        wall_s=time.time() - START, violations=len(viols)), open(f"{VERIF}/evidence/C22.json", "w"), indent=1)
    print(f"C22: {len(table)} configurations and runs, {totals['evals']} evaluations of the real engine, {totals['ops']} operations, {len(probes)} probes, {time.time()-START:.0f}s")
    if viols:
        return 1
    print("C22: held on everything explored")
    return 0

def replay(path):
    j = json.load(open(path))
    print(j["deviation"])
    c = j["config"]
    if j["kind"] == "probe":
        r = sh(["cargo", "check", "--offline", "--features", ",".join(f"f_{f}" for f in c[0])], f"{H}/probe")
        print(r.stdout[-2000:])
        return 0
    e, err = build(*c)
    if e is None:
        print(err[-3000:])
        return 1
    if j["kind"] == "repeat":
        kits, unstable = run(e, MC_TWICE="1", MC_REVERSE="1")
        kits2, _ = run(e)
        print(kits, kits2, *unstable, sep="\n")
        return 1 if unstable or any(kits[k]["digest"] != kits2[k]["digest"] for k in kits) else 0
    b, _ = build(*j["base"])
    d = first_difference(b, e, j["kit"])
    print(json.dumps(d, indent=1))
    return 0 if d["family"] == "?" else 1

if __name__ == "__main__":
    sys.exit(replay(sys.argv[2]) if len(sys.argv) > 2 else main())
