import os
from runner import *
import wire


def c05(prop):
    build("mvrt")
    rep = run_monitor(prop, os.path.join(BIN, "varint"), os.path.join(TARGET, f"{prop}.json"), MV_ROUNDS=4000 if THOROUGH else 200)
    return finish(prop, rep, "integers around every power of two, random, and all 16 bit ones per width; byte strings of every length; distinct values and byte strings", minimum=10000,
                  assumptions=["the reference varint in harness/core/src/codec.rs"])


def c28(prop):
    build("mvrt")
    rep = run_monitor(prop, os.path.join(BIN, "ids"), os.path.join(TARGET, f"{prop}.json"), MV_ROUNDS=60000 if THOROUGH else 4000)
    return finish(prop, rep, "all raw field keys; identifiers around powers of two and random ones, in every class; containers made of random values, empty ones included; encodings of them, whole, spoiled and fragmented; distinct identifiers, values and byte strings", minimum=10000,
                  assumptions=["what a key means, as stated in harness/rt/src/bin/ids.rs", "the reference varint in harness/core/src/codec.rs"])


CHECKS = {p: wire.wire for p in ("C01", "C02", "C03", "C04", "C06", "C07", "C08")}
CHECKS["C05"] = c05
CHECKS["C28"] = c28
import front
CHECKS.update({p: front.front for p in front.SPECS})
import rustc
CHECKS["C15"] = rustc.c15
import same
CHECKS["C25"] = same.c25
