"""C15: what the generator makes of accepted schemas, in process and compiled by rustc."""
import json, os, shutil, subprocess

import front, wire
from runner import *


def probes(rep):
    """Tiny packages that show the known findings."""
    root = os.path.join(TARGET, "gen", "probes")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    p = subprocess.run([os.path.join(BIN, "wiregen"), "--out", root, "--compile-probes"], env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    if p.returncode:
        raise Inconclusive(f"wiregen: {p.returncode} {p.stderr[-1000:]}")
    shutil.copy(os.path.join(HARNESS, "Cargo.lock"), os.path.join(root, "Cargo.lock"))
    made = json.load(open(os.path.join(root, "gen.json")))
    failed = {}
    ok, _ = cargo(root, ["--keep-going", "--bins"], command="check", failed=failed)
    for name, r in made.items():
        rep["evaluations"] += 1
        if r["what"].startswith("rejected") and "failed to generate" not in r["what"]:
            continue
        msg = r["what"] if r["what"] != "generated" else failed.get(name.lower())
        if msg:
            violation(rep, f"probe:{name}", f"{name}: the schema is accepted, but: {msg[:600]}", {"files": r["files"], "message": msg[:3000]})


def compiled(rep):
    build("wiregen")
    per = 120 if THOROUGH else 30
    bins, total, problems, errors = wire.build_generated("c", per, compile=True)
    for k in ("packages", "definitions"):
        rep["counters"]["compiled " + k] = total[k]
    rep["counters"]["assertions compiled"] = total["types"]
    rep["evaluations"] += total["packages"]
    rep["distinct"] += total["packages"]
    for p in problems:
        violation(rep, "generate", "an accepted package makes the generator fail: " + p["error"][:1500], p)
    for e in errors:
        root = os.path.join(TARGET, "gen", "c", e["crate"], "proj", f"{e['package']}a", "schemas")
        files = [{"name": f, "text": open(os.path.join(root, f)).read()} for f in sorted(os.listdir(root))] if os.path.isdir(root) else []
        sig = "compile" if e["generated"] else "declares"
        violation(rep, sig, ("generated code does not compile: " if e["generated"] else "generated code does not declare what the schema says: ") + e["message"], {**e, "files": files})
    probes(rep)


def c15(prop):
    return front.front(prop, extra=compiled)
