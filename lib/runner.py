"""Builds the monitors against /repo, runs them, and turns what they saw into a verdict."""
import json, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(VERIF, "target")
HARNESS = os.path.join(VERIF, "harness")
BIN = os.path.join(TARGET, "debug")
HANG_EXIT = 97
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
START = time.time()


class Inconclusive(Exception):
    pass


def log(*a):
    print(f"[{time.time() - START:6.1f}s]", *a, flush=True)


def env(**kw):
    e = {k: v for k, v in os.environ.items() if k not in ("CLICOLOR", "CLICOLOR_FORCE", "FORCE_COLOR")}
    e["NO_COLOR"] = "1"
    e.pop("RUSTFLAGS", None)
    e.update(CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0", CARGO_INCREMENTAL="0")
    e.update({k: str(v) for k, v in kw.items()})
    return e


def cargo(cwd, args, timeout=840, command="build", failed=None):
    """Returns (ok, compiler messages)."""
    p = subprocess.run(["cargo", command, "--offline", "--message-format=json", *args], cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    msgs = []
    for line in p.stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-message" and m["message"]["level"].startswith("error"):
            msgs.append(m["message"])
            if failed is not None:
                failed.setdefault(m["target"]["name"], m["message"].get("rendered") or m["message"]["message"])
    if p.returncode and not msgs:
        raise Inconclusive("cargo build failed: " + p.stderr[-2000:])
    return p.returncode == 0, msgs


def build(*pkgs):
    log("building", *pkgs)
    args = [a for p in pkgs for a in ("-p", p)]
    ok, msgs = cargo(HARNESS, args)
    if not ok:
        raise Inconclusive("the harness does not build against this tree:\n" + "\n".join(m.get("rendered", "") for m in msgs[:5]))


def build_repo(*bins):
    """Build binaries of /repo itself, into our target directory."""
    log("building", *bins, "of /repo")
    sub = os.path.join(TARGET, "repo")
    e = env(CARGO_TARGET_DIR=sub)
    p = subprocess.run(["cargo", "build", "--offline", "--locked", *[a for b in bins for a in ("-p", b)]], cwd="/repo", env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=840)
    if p.returncode:
        raise Inconclusive("/repo does not build: " + p.stderr[-2000:])
    return os.path.join(sub, "debug")


def empty():
    return {"evaluations": 0, "distinct": 0, "counters": {}, "samples": [], "violations": [], "signatures": {}}


def merge(a, b):
    a["evaluations"] += b["evaluations"]
    a["distinct"] += b["distinct"]
    for k in ("counters", "signatures"):
        for n, v in b[k].items():
            a[k][n] = a[k].get(n, 0) + v
    for k, n in (("samples", 12), ("violations", 60)):
        a[k] = (a[k] + b[k])[:n]
    return a


def violation(rep, sig, what, witness):
    rep["signatures"][sig] = rep["signatures"].get(sig, 0) + 1
    if rep["signatures"][sig] <= 3:
        rep["violations"].append({"signature": sig, "what": what, "witness": witness})


def run_monitor(prop, exe, out, args=(), timeout=800, **kw):
    """Run one monitor process; a crash of the process is attributed by running it again with a trace."""
    e = env(MV_PROPERTY=prop, MV_OUT=out, MV_SEED=SEED, MV_TIER=TIER, **kw)
    for f in (out, out + ".hang"):
        if os.path.exists(f):
            os.remove(f)
    # a stack large enough for nothing but absurd recursion
    def once(e):
        return subprocess.run([exe, *args], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    try:
        p = once(e)
    except subprocess.TimeoutExpired:
        raise Inconclusive(f"{os.path.basename(exe)} did not finish in {timeout} s")
    if p.returncode == 0 and os.path.exists(out):
        return json.load(open(out))
    rep = empty()
    if p.returncode == HANG_EXIT:
        e["MV_TRACE"] = out + ".trace"
        what = open(out + ".hang").read() if os.path.exists(out + ".hang") else ""
        if not what:
            try:
                once(e)
            except subprocess.TimeoutExpired:
                raise Inconclusive("a hang could not be reproduced in time")
            what = open(out + ".hang").read() if os.path.exists(out + ".hang") else ""
        rep["evaluations"] = 1
        violation(rep, "hang", "a single case used more processor time than any correct run can: " + what[:600], {"case": what})
        return rep
    if p.returncode < 0 and -p.returncode in (signal.SIGABRT, signal.SIGSEGV, signal.SIGILL, signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP):
        trace = out + ".trace"
        e["MV_TRACE"] = trace
        try:
            q = once(e)
        except subprocess.TimeoutExpired:
            raise Inconclusive("a crash could not be reproduced in time")
        case = open(trace).read() if os.path.exists(trace) else ""
        if q.returncode == p.returncode and case:
            rep["evaluations"] = 1
            violation(rep, "crash", f"the process was ended by signal {-p.returncode} ({p.stderr.strip()[-300:]}) in: {case[:600]}", {"case": case, "stderr": p.stderr[-2000:]})
            return rep
        raise Inconclusive(f"signal {-p.returncode} that did not come back: {p.stderr[-1500:]}")
    raise Inconclusive(f"{os.path.basename(exe)} exited with {p.returncode}: {p.stderr[-2500:]}")


def parallel(jobs):
    with ThreadPoolExecutor(8) as ex:
        return [f.result() for f in [ex.submit(j) for j in jobs]]


# ---------------------------------------------------------------- known findings

def known(prop):
    try:
        data = json.load(open(os.path.join(VERIF, "known_findings.json")))
    except FileNotFoundError:
        return {}
    return {k["signature"]: k["what"] for k in data["findings"] if k["property"] == prop}


# ---------------------------------------------------------------- verdict

def finish(prop, rep, rule, level="exploration", assumptions=(), extra=None, minimum=1):
    listed = known(prop)
    new = [v for v in rep["violations"] if v["signature"] not in listed]
    new_sigs = {s: n for s, n in rep["signatures"].items() if s not in listed}
    coverage = {
        "evaluations": rep["evaluations"], "distinct_nontrivial": rep["distinct"], "rule": rule,
        "samples": rep["samples"][:8] or ["none"], "observed": rep["counters"],
    }
    if extra:
        coverage.update(extra)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": coverage,
        "assumptions": list(assumptions), "wall_s": round(time.time() - START, 1), "violations": sum(new_sigs.values()),
        "known_findings_seen": sorted(s for s in rep["signatures"] if s in listed),
    }
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    log(f"{prop}: {rep['evaluations']} evaluations, {rep['distinct']} distinct; {rep['counters']}")
    seen = set()
    for s in sorted(rep["signatures"]):
        if s in listed and listed[s] not in seen:
            seen.add(listed[s])
            print(f"KNOWN-FINDING: property={prop} {listed[s]} [{s}]", flush=True)
    if new_sigs:
        folder = os.path.join(VERIF, "replays")
        os.makedirs(folder, exist_ok=True)
        done = set()
        for v in new:
            if v["signature"] in done:
                continue
            done.add(v["signature"])
            path = os.path.join(folder, f"{prop}-{re.sub(r'[^A-Za-z0-9_.-]+', '_', v['signature'])[:60]}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": SEED, "tier": TIER, "command": f"VERIF_SEED={SEED} VERIF_TIER={TIER} ./check {prop}", **v}, f, indent=1, ensure_ascii=False)
            log(v["signature"], "-", v["what"][:1200])
            print(f"VIOLATION property={prop} replay={path}", flush=True)
        return 1
    if rep["evaluations"] < minimum or rep["distinct"] < 2:
        raise Inconclusive(f"only {rep['evaluations']} evaluations")
    return 0


def main(argv):
    import checks
    prop = argv[0]
    try:
        return checks.CHECKS[prop](prop)
    except Inconclusive as e:
        print(f"INCONCLUSIVE property={prop}: {e}", flush=True)
        return 2
    except subprocess.TimeoutExpired as e:
        print(f"INCONCLUSIVE property={prop}: {e}", flush=True)
        return 2
