"""Checks that run generated Rust code."""
import json, os, re, shutil, subprocess, time

import runner
from runner import *

CRATES = 8


def generate(root, label, packages, skip, probes, compile=False):
    d = os.path.join(root, label)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    args = [os.path.join(BIN, "wiregen"), "--out", d, "--seed", str(SEED), "--packages", str(packages), "--label", label, "--skip", ",".join(map(str, skip)), "--probes", "yes" if probes else "no", *(["--compile"] if compile else [])]
    p = subprocess.run(args, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    if p.returncode < 0:
        # the generator of /repo runs in this process
        raise Inconclusive(f"wiregen was ended by signal {-p.returncode}: {p.stderr[-500:]}")
    if p.returncode:
        raise Inconclusive(f"wiregen failed: {p.stderr[-1500:]}")
    return json.load(open(os.path.join(d, "gen.json")))


def culprit(msg, root):
    """The generated crate and package that a compiler message is about, and whether it is in generated code."""
    def spans(m):
        for s in m.get("spans", []):
            while s:
                yield s
                s = (s.get("expansion") or {}).get("span")
    best = None
    for s in sorted(spans(msg), key=lambda s: not s.get("is_primary")):
        f = s["file_name"]
        m = re.search(r"(\w+)/src/(?:(p(\d+)[ab])\.rs|main\.rs)$", os.path.join(root, f))
        if not m:
            continue
        if m.group(3):
            return m.group(1), int(m.group(3)), True
        for t in s.get("text", []):
            n = re.search(r"\bp(\d+)[ab]\b", t["text"])
            if n:
                best = best or (m.group(1), int(n.group(1)), False)
    return best


def build_generated(tag, per_crate, crates=CRATES, seed_label="", compile=False):
    """Generate and build; returns the binaries, generation statistics, problems, compile errors."""
    root = os.path.join(TARGET, "gen", tag)
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    labels = [f"{tag}{seed_label}{k}" for k in range(crates)]
    skip = {l: set() for l in labels}
    with open(os.path.join(root, "Cargo.toml"), "w") as f:
        f.write("[workspace]\nresolver = \"2\"\nmembers = [%s]\n\n[profile.dev]\nopt-level = 0\ndebug = 0\nincremental = false\ndebug-assertions = true\noverflow-checks = true\n[profile.dev.package.\"*\"]\nopt-level = 1\n" % ", ".join(json.dumps(l) for l in labels))
    shutil.copy(os.path.join(HARNESS, "Cargo.lock"), os.path.join(root, "Cargo.lock"))
    errors, problems = [], {}
    todo = labels
    stats = {}
    for attempt in range(6):
        for l, r in zip(todo, parallel([lambda l=l: generate(root, l, per_crate, sorted(skip[l]), l == labels[0] and not compile, compile) for l in todo])):
            stats[l] = r["stats"]
            problems[l] = r["problems"]
        log("building generated code:", sum(s["packages"] for s in stats.values()), "packages,", sum(s["types"] for s in stats.values()), "types")
        ok, msgs = cargo(root, ["--keep-going"], command="check" if compile else "build")
        if ok:
            break
        todo = set()
        for m in msgs:
            if not m.get("spans"):
                continue
            c = culprit(m, root)
            if not c:
                raise Inconclusive("generated crates do not build: " + (m.get("rendered") or "")[:2000])
            label, package, generated = c
            if package not in skip[label]:
                errors.append({"crate": label, "package": package, "generated": generated, "message": (m.get("rendered") or m["message"])[:1500]})
            skip[label].add(package)
            todo.add(label)
        if not todo:
            raise Inconclusive("generated crates do not build: " + "\n".join((m.get("rendered") or "") for m in msgs)[:2000])
        todo = sorted(todo)
        log("excluded packages that do not compile:", {l: sorted(s) for l, s in skip.items() if s})
    else:
        raise Inconclusive("generated crates still do not build")
    total = {k: sum(s[k] for s in stats.values()) for k in ("packages", "definitions", "types")}
    return [(l, os.path.join(BIN, f"gen-{l}")) for l in labels], total, [p for v in problems.values() for p in v], errors


ROUNDS = {"C01": 40, "C02": 60, "C03": 25, "C04": 30, "C06": 20, "C07": 8, "C08": 40}
RULES = {
    "C01": "random values of random types of random schemas, encoded by generated code and decoded with trailing bytes; distinct (type, value) pairs",
    "C02": "random values of random types; Size::size against the length of the encoding; distinct (type, value) pairs",
    "C03": "prefixes and mutations of encodings (bit flips, splices, inflated lengths, random bytes) decoded under an allocation meter and a read budget; distinct (type, bytes) pairs",
    "C04": "values written by one schema version and read by another, plus permuted and unknown fields; distinct (type, version, bytes)",
    "C06": "encodings with one injected fault, compared with the reference decoder's verdict; distinct (type, bytes) pairs",
    "C07": "valid and mutated data decoded whole and in random chunks; distinct (type, data, cuts)",
    "C08": "bytes of generated encoders against an independent encoder, and its bytes read by generated decoders; distinct (type, bytes)",
}


def wire(prop):
    build("wiregen")
    per = 10 if THOROUGH else 3
    bins, total, problems, errors = build_generated("w", per)
    if total["packages"] < (CRATES * per) // 2:
        raise Inconclusive(f"only {total['packages']} packages could be generated and compiled: {problems[:2]} {errors[:2]}")
    secs = 1500 if THOROUGH else 60
    rounds = ROUNDS[prop] * (60 if THOROUGH else 1)
    log("running", prop)
    os.makedirs(os.path.join(TARGET, "out"), exist_ok=True)
    reps = parallel([lambda l=l, b=b: run_monitor(prop, b, os.path.join(TARGET, "out", f"{prop}-{l}.json"), MV_ROUNDS=rounds, MV_SECS=secs, timeout=secs + 300) for l, b in bins])
    rep = empty()
    for r in reps:
        merge(rep, r)
    rep["counters"]["definitions"] = total["definitions"]
    rep["counters"]["packages excluded"] = len(problems) + len({(e["crate"], e["package"]) for e in errors})
    return finish(prop, rep, RULES[prop], assumptions=[
        "schemas avoid constructs whose generated code is known not to compile (see C15) and, where noted, known wire-format findings",
        "the reference codec in harness/core/src/codec.rs states the wire format"], minimum=500)
