"""P27: objects written and read back against Codec.tla."""
from core import *
from fs import pick


def one(ctx, binary, name, insts, streams, args):
    tag = "." + name
    inp = ctx.write("inst%s.ndjson" % tag, insts)
    outp = ctx.path("trace%s.ndjson" % tag)
    ctx.run_bin([binary, "codec", inp, outp, streams] + args)
    trace = ctx.read("trace%s.ndjson" % tag)
    rep = validate(ctx, "CodecTrace", outp, {})
    if rep["n"] != len(trace):
        raise ToolError("trace length mismatch")
    ctx.cov["traces_validated_against_impl"] += len(insts)
    cnt = ctx.cov.setdefault("events", {})
    names = {}
    for e in trace:
        if e["ev"] == "obj":
            names[(e["inst"], e["id"])] = e["name"]
        k = "%s:%s" % (name, e["ev"])
        cnt[k] = cnt.get(k, 0) + 1
        if e["ev"] == "cuts":
            cnt[name + ":truncations"] = cnt.get(name + ":truncations", 0) + len(e["at"])
    for l in rep["bad"]:
        e = trace[l - 1]
        if e["ev"] == "stream":
            what = "+".join(sorted({names.get((e["inst"], i), "?") for i in e["ids"]}))
        elif e["ev"] == "altered":
            what = e["name"]
        else:
            what = names.get((e["inst"], e["id"]), "?")
        ctx.violation("codec:%s:%s:%s" % (e["ev"], what, e["form"]), {"event": e, "instance": insts[e["inst"]]})
    if not any(e["ev"] == "stream" and any(g["r"] == "ok" for g in e["got"]) for e in trace) and not ctx.viol:
        raise ToolError("vacuous: %s" % name)


def p27(ctx):
    k = 20 if THOROUGH else 1
    ctx.tlc("CodecMC", env={"LEVEL": "1" if THOROUGH else "0"}, workers=6)
    st = ctx.write("streams.ndjson", pick(ctx, "CodecGen", 400 if THOROUGH else 120, 8))
    b = build(["h-groth16", "h-marlin", "h-plonk", "h-bulletproofs", "h-spartan", "h-gkr"])
    r = pick(ctx, "R1CSGen", 16 * k, 45)
    ctx.sample({"instance": r[0]})
    one(ctx, b + "/h-groth16", "groth16", r, st, [])
    one(ctx, b + "/h-marlin", "marlin", r[:8 * k], st, [])
    one(ctx, b + "/h-bulletproofs", "bulletproofs", r[:10 * k], st, [])
    one(ctx, b + "/h-spartan", "spartan-nizk", r[:10 * k], st, ["nizk"])
    one(ctx, b + "/h-spartan", "spartan-snark", r[:5 * k], st, ["snark"])
    one(ctx, b + "/h-plonk", "plonk", pick(ctx, "PlonkGen", 16 * k, 60)[:10 * k], st, [])
    g = pick(ctx, "GKRGen", 12 * k, 80, {"KIND": "libra"})
    one(ctx, b + "/h-gkr", "libra", g, st, ["plain"])
    one(ctx, b + "/h-gkr", "zklibra", g, st, ["zk"])
    one(ctx, b + "/h-gkr", "hyrax", pick(ctx, "GKRGen", 12 * k, 80, {"KIND": "hyrax"}), st, ["hyrax"])
