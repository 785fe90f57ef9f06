"""P32: the Curve25519 wrapper against a group of prime order."""
from core import *
from r1cs import gen


def p32(ctx):
    b = build(["h-curve"])
    insts = gen(ctx, "Group25519Gen", 4000 if THOROUGH else 150, 400)
    ctx.sample(insts[0]["ops"][:6])
    trace = ctx.path("trace.ndjson")
    ctx.run_bin([b + "/h-curve", ctx.write("inst.ndjson", insts), trace])
    evs = ctx.read("trace.ndjson")
    rep = validate(ctx, "Group25519Trace", trace)
    ctx.cov["traces_validated_against_impl"] += len(insts)
    cnt = ctx.cov.setdefault("events", {})
    for e in evs:
        k = "%s:%d:%s" % (e["op"], e["f"], e["res"])
        cnt[k] = cnt.get(k, 0) + 1
    seen = set()
    for l in rep["bad"]:
        e = evs[l - 1]
        if e["inst"] in seen:
            continue  # what follows the first deviation is not judged
        if e["d"]:
            seen.add(e["inst"])
        ctx.violation("curve25519:%s:%d:%s" % (e["op"], e["f"], e["res"]), {"event": e, "prefix": [x for x in evs[:l] if x["inst"] == e["inst"]][-6:]})
