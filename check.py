#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--keep]

Decides one property of /repo by symbolic execution of the LLVM bitcode that rustc makes of the harness crate and of
/repo's current source, with Z3 deciding every branch and assertion.  Exit 0: holds on everything explored; 1: a
counterexample that reproduces natively (VIOLATION line); 2: the check itself failed.
"""
import concurrent.futures as cf
import fcntl, glob, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from plan import PLAN  # noqa: E402

BUILD = os.path.join(ROOT, ".build")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"


class Broken(Exception):
    pass


def env_with(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTFLAGS", "RUSTC"))}
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    if "CARGO_HOME" in os.environ:
        e["CARGO_HOME"] = os.environ["CARGO_HOME"]
    e.update(kw)
    return e


def run(cmd, cwd, env, what):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        raise Broken(f"{what} failed")
    return p.stdout


def build_engine():
    run(["cargo", "build", "--release", "--offline", "-q"], os.path.join(ROOT, "engine"),
        env_with(CARGO_TARGET_DIR=os.path.join(BUILD, "engine")), "building the engine")
    return os.path.join(BUILD, "engine", "release", "vengine")


def features(plan):
    return ",".join([plan["feature"]] + plan.get("features", []))


def build_ir(plan, work):
    # where tail calls count, the code is executed as it is without optimisation
    t = os.path.join(BUILD, "ir0" if plan.get("unoptimised") else "ir")
    env = env_with(CARGO_TARGET_DIR=t, RUSTC_BOOTSTRAP="1", **({"CARGO_PROFILE_IR_OPT_LEVEL": "0"} if plan.get("unoptimised") else {}),
                   RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp -Z ub-checks=no")
    h = os.path.join(ROOT, plan.get("crate", "harness"))
    subprocess.run(["cargo", "clean", "--offline", "-q", "--profile", "ir", "-p", "vh", "-p", "rpds"], cwd=h, env=env,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    for f in glob.glob(os.path.join(t, "ir", "deps", "vh*")):
        os.remove(f)
    run(["cargo", "rustc", "--offline", "-q", "--lib", "--profile", "ir", "--features", features(plan),
         "--crate-type", "cdylib", "--", "-C", "save-temps"], h, env, "building the bitcode")
    bc = glob.glob(os.path.join(t, "ir", "deps", "vh*-cgu.0.rcgu.bc"))
    if len(bc) != 1:
        raise Broken(f"expected one bitcode module, found {bc}")
    dst = os.path.join(work, "vh.bc")
    shutil.copy(bc[0], dst)
    return dst


def build_native(plan, work, profile):
    t = os.path.join(BUILD, "native-" + profile)
    env = env_with(CARGO_TARGET_DIR=t)
    if plan.get("unoptimised") and profile == "dev":
        t += "0"
        env = env_with(CARGO_TARGET_DIR=t, CARGO_PROFILE_DEV_OPT_LEVEL="0")
    h = os.path.join(ROOT, plan.get("crate", "harness"))
    pargs = ["--release"] if profile == "release" else []
    subprocess.run(["cargo", "clean", "--offline", "-q", "-p", "vh", "-p", "rpds"] + pargs, cwd=h, env=env,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    run(["cargo", "build", "--offline", "-q", "--bin", "replay", "--features", features(plan)] + pargs, h, env,
        f"building the {profile} replay binary")
    dst = os.path.join(work, "replay-" + profile)
    shutil.copy(os.path.join(t, "release" if profile == "release" else "debug", "replay"), dst)
    return dst


def nums(xs):
    return ",".join(str(x) for x in xs)


def replay(binary, entry, params, inputs, observed=None, timeout=30, guard=True):
    """(outcome, text): ok, check, panic, diverged, observation, crash, hang"""
    cmd = [binary, entry, nums(params), nums(inputs)]
    if observed is not None:
        cmd.append(nums(observed))
    env = dict(os.environ, VH_GUARD="1" if guard else "0")
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return "hang", f"no answer in {timeout} s"
    out = p.stdout.decode(errors="replace").strip()[-500:]
    kind = {0: "ok", 3: "check", 4: "panic", 5: "diverged", 6: "observation"}.get(p.returncode, "crash")
    return kind, f"{out} (exit {p.returncode})"


def load_known(pid):
    f = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)) if k.get("property") == pid and k.get("status") == "known"]


def known_match(known, entry, v):
    for k in known:
        m = k["match"]
        if m.get("entry") == entry and m.get("kind", v["kind"]) == v["kind"] and re.search(m.get("msg", ""), v["msg"]):
            return k
    return None


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    plan = PLAN[pid]
    t0 = time.time()
    work = os.path.join(BUILD, "work", f"{pid}-{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    try:
        rc = check(pid, plan, tier, seed, work, t0, args)
    except Broken as e:
        print(f"ERROR: {pid}: {e}")
        rc = 2
    finally:
        if "--keep" not in args:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def check(pid, plan, tier, seed, work, t0, args):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        with cf.ThreadPoolExecutor(4) as ex:
            fe = ex.submit(build_engine)
            fi = ex.submit(build_ir, plan, work)
            fd = ex.submit(build_native, plan, work, "dev")
            fr = ex.submit(build_native, plan, work, "release")
            engine, bc, bins = fe.result(), fi.result(), {"dev": fd.result(), "release": fr.result()}
        shutil.copy(engine, os.path.join(work, "vengine"))
        engine = os.path.join(work, "vengine")
    build_s = time.time() - t0

    if "--replay" in args:
        d = json.load(open(args[args.index("--replay") + 1]))
        bad = False
        for prof, b in bins.items():
            k, text = replay(b, d["entry"], d["params"], d["inputs"])
            print(prof, k, text)
            bad |= k != "ok"
        return 1 if bad else 0

    jobs = []
    for entry, plist in plan[tier if tier in plan else "quick"]:
        for p in plist:
            jobs.append((entry, list(p)))
    jf = os.path.join(work, "jobs")
    with open(jf, "w") as f:
        for e, p in jobs:
            f.write(" ".join([e] + [str(x) for x in p]) + "\n")
    out = os.path.join(work, "out.json")
    budget = plan.get("budget", {}).get(tier, 420 if tier == "quick" else 3000)
    steps = plan.get("steps", 200_000_000)
    known = load_known(pid)
    cmd = [engine, "--bc", bc, "--jobs", jf, "--out", out, "--threads", str(os.environ.get("VH_THREADS", 8)),
           "--budget", os.environ.get("VH_BUDGET", str(budget)), "--steps", str(steps), "--samples", "2", "--seed", str(seed),
           "--query-timeout", "60000", "--max-violations", str(6 + 4 * len(known))]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Broken(f"engine exit {p.returncode}: {p.stdout[-2000:]}")
    d = json.load(open(out))

    # Violations: only what the real code reproduces is reported.
    problems, reported, findings, nvio = [], [], {}, 0
    ev = os.path.join(ROOT, "evidence")
    os.makedirs(ev, exist_ok=True)
    for f in glob.glob(os.path.join(ev, f"{pid}.replay*.json")):
        os.remove(f)
    for j in d["jobs"]:
        for v in j["violations"]:
            nvio += 1
            res = {}
            for prof, b in bins.items():
                for guard in (True, False):
                    if prof in res and res[prof][0] not in ("ok", "diverged"):
                        break
                    res[prof] = replay(b, j["entry"], j["params"], v["inputs"], guard=guard, timeout=60)
            # a panic or check natively, a crash, or no answer where the executor ran out of steps
            hit = {k: r for k, r in res.items() if r[0] in ("check", "panic", "crash", "hang")}
            if not hit:
                problems.append(f"{j['entry']} {j['params']}: {v['kind']} {v['msg']} does not reproduce natively: {res}"
                                f" inputs {v['inputs']} at {v['at']}")
                continue
            k = known_match(known, j["entry"], v)
            if k:
                findings[k["id"]] = k
                continue
            path = os.path.join(ev, f"{pid}.replay{len(reported)}.json")
            with open(path, "w") as f:
                json.dump(dict(property=pid, entry=j["entry"], params=j["params"], inputs=v["inputs"], kind=v["kind"],
                               msg=v["msg"], at=v["at"], native=res,
                               how=f"python3 check.py {pid} --replay {path}"), f, indent=1)
            reported.append((path, j["entry"], j["params"], v, hit))

    for j in d["jobs"]:
        for m, n in j["errors"].items():
            problems.append(f"{j['entry']} {j['params']}: {n} paths not encodable: {m}")

    # Sampled paths: the executor's prediction of everything observed must be what the real code does.
    todo = [(j, s) for j in d["jobs"] for s in j["samples"]]
    cap = 240 if tier == "quick" else 1200
    if len(todo) > cap:
        step = len(todo) / cap
        todo = [todo[int(i * step)] for i in range(cap)]
    validated, samples = 0, []

    def one(a):
        j, s = a
        return [(prof, replay(b, j["entry"], j["params"], s["inputs"], s["observed"], timeout=120,
                              guard=len(s["inputs"]) < 5000)) for prof, b in bins.items()]

    with cf.ThreadPoolExecutor(8) as ex:
        for (j, s), rs in zip(todo, ex.map(one, todo)):
            bad = [r for r in rs if r[1][0] != "ok"]
            if bad:
                problems.append(f"sampled path of {j['entry']} {j['params']} {s} differs natively: {bad}")
            else:
                validated += 1
                if len(samples) < 12 or (len(samples) < 40 and not any(x["harness"] == j["entry"] for x in samples)):
                    samples.append(dict(harness=j["entry"], params=j["params"], inputs=s["inputs"][:64],
                                        observed=s["observed"][:64]))

    paths = sum(j["paths"] for j in d["jobs"])
    unexplored = sum(j["unexplored"] for j in d["jobs"]) + len(d["queued_left"])
    covers, checks, per = {}, {}, {}
    for j in d["jobs"]:
        for k, n in j["covers"].items():
            covers[f"{j['entry']}:{k}"] = covers.get(f"{j['entry']}:{k}", 0) + n
        for k, n in j["check_ids"].items():
            checks[f"{j['entry']}:{k}"] = checks.get(f"{j['entry']}:{k}", 0) + n
        e = per.setdefault(j["entry"], dict(jobs=0, paths=0, assertions=0, cpu_s=0.0))
        e["jobs"] += 1
        e["paths"] += j["paths"]
        e["assertions"] += j["checks"]
        e["cpu_s"] = round(e["cpu_s"] + j["time_s"], 2)
    # Vacuity: every harness must reach its end on some path and evaluate an assertion, every witness be reached.
    if not reported and not unexplored:
        for j in d["jobs"]:
            if not j["paths"] and not j["violations"] and not j["errors"]:
                problems.append(f"vacuous: {j['entry']} {j['params']} has no completed path")
        for e in per:
            if not per[e]["assertions"]:
                problems.append(f"vacuous: {e} evaluates no assertion")
        for w in plan.get("witnesses", []):
            if w not in covers:
                problems.append(f"vacuous: witness {w} is not reached")

    evidence = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=paths, transitions=d["decisions"], traces_validated_against_impl=validated, samples=samples,
            explanation="states: program paths explored to their end, each for every value of its symbolic inputs that "
                        "follows it; transitions: branch and choice decisions on them; traces: sampled paths whose "
                        "solver-made inputs were run on the native dev and release builds with the predicted observations.",
            exhaustive=(unexplored == 0 and not d["timeout"]),
            unexplored_states=unexplored, infeasible=sum(j["infeasible"] for j in d["jobs"]),
            instructions=d["insts"], assertions_evaluated=d["checks"], assertions_on_symbolic_values=d["sym_checks"],
            queries=d["queries"], sat=d["sat"], unsat=d["unsat"], unknown=d["unknown"], solver_s=d["solver_s"],
            max_query_s=d["max_query_s"], solver=f"z3 {d['z3']}", executor_wall_s=d["wall_s"], build_s=round(build_s, 2),
            bounds=plan["bounds"], outside=plan.get("outside", ""), harnesses=per, witnesses=covers, assertions=checks,
            functions_encoded=d["funcs"], functions_executed_total=d["nfuncs"],
            jobs=[[j["entry"]] + j["params"] + [j["paths"], round(j["time_s"], 1)] for j in d["jobs"]],
            encoding_problems=problems[:20],
        ),
        assumptions=plan.get("assumptions", []) + COMMON,
        wall_s=round(time.time() - t0, 2), violations=len(reported),
    )
    with open(os.path.join(ev, f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    print(f"{pid} [{tier}] paths={paths} assertions={d['checks']} queries={d['queries']} solver_s={d['solver_s']:.1f} "
          f"validated={validated} unexplored={unexplored} violations={nvio} build_s={build_s:.1f} "
          f"executor_s={d['wall_s']:.1f} wall_s={time.time() - t0:.1f}")
    for k in findings.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for path, entry, params, v, hit in reported:
        print(f"  {entry} {params}: {v['kind']} {v['msg']} inputs={v['inputs'][:40]} native={hit}")
    if reported:
        print(f"VIOLATION property={pid} replay={reported[0][0]}")
        return 1
    if problems:
        for m in problems[:20]:
            print("PROBLEM:", m)
        return 2
    return 0


COMMON = [
    "rustc's code generation from MIR to LLVM IR at opt-level 1 (P20: 0; debug assertions and overflow checks on), and Z3, are trusted",
    "the memory allocator is modelled as always succeeding below 2^40 bytes, with fresh non-overlapping blocks",
    "sequentially consistent single-threaded execution of the encoded code",
]

if __name__ == "__main__":
    main()
