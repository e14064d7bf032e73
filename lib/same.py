"""C25: everything in process, by command and by generated encoders, more than once."""
import os

import front, wire
from runner import *


def encoders(rep):
    """Generated encoders in two processes of different environments."""
    build("wiregen")
    bins, total, problems, errors = wire.build_generated("w", 10 if THOROUGH else 3)
    secs = 900 if THOROUGH else 60
    rounds = 40 * (40 if THOROUGH else 1)

    def twice(label, exe):
        outs = [os.path.join(TARGET, "out", f"C25-{label}-{k}.json") for k in (0, 1)]
        for f in outs:
            if os.path.exists(f + ".digests"):
                os.remove(f + ".digests")
        a = run_monitor("C25", exe, outs[0], MV_ROUNDS=rounds, MV_SECS=secs, timeout=secs + 300)
        b = run_monitor("C25", exe, outs[1], MV_ROUNDS=rounds, MV_SECS=secs, TZ="Asia/Tokyo", LANG="de_DE.UTF-8", RUST_MIN_STACK=9000000, timeout=secs + 300)
        if a["violations"] or b["violations"]:
            return merge(a, b)
        # a run that ran out of time ends early
        x, y = (open(f + ".digests").read().splitlines() if os.path.exists(f + ".digests") else [] for f in outs)
        a["counters"]["encodings compared between processes"] = min(len(x), len(y))
        for i, (p, q) in enumerate(zip(x, y)):
            if p != q:
                violation(a, "encoded-differs", f"two processes encode the same value to different bytes: {p} and {q} (round, package, version, type, digest)", {"crate": label, "line": i, "first": p, "second": q})
                break
        return a

    log("running encoders")
    for r in parallel([lambda l=l, b=b: twice(l, b) for l, b in bins]):
        merge(rep, r)


def c25(prop):
    return front.front(prop, extra=encoders)
