"""P15, P16: PLONK against PlonkCS.tla."""
from core import *
from sims import sim
from fs import bound


def run(ctx, mode, n):
    out = ctx.tlc("PlonkGen", simulate=n, depth=60, workers=1)
    insts = ctx.marked(out, "INST")
    # circuits of up to 70 gates
    insts += ctx.marked(ctx.tlc("PlonkGen", simulate=(6 if mode == "complete" else 2) * (10 if THOROUGH else 1), depth=200, workers=1, env={"WIDE": "1"}), "INST")
    if not insts:
        raise ToolError("no instances generated")
    ctx.sample({"instance": insts[len(insts) // 2]})
    b = build(["h-plonk"])
    inp = ctx.write("inst.ndjson", insts)
    outp = ctx.path("trace.ndjson")
    ctx.run_bin([b + "/h-plonk", mode, inp, outp])
    trace = ctx.read("trace.ndjson")
    rep = validate(ctx, "PlonkTrace", outp, {"PROP": mode})
    if rep["n"] != len(trace):
        raise ToolError("trace length mismatch")
    ctx.cov["traces_validated_against_impl"] += len(insts)
    cnt = ctx.cov.setdefault("events", {})
    for e in trace:
        k = e["ev"] + ":" + e.get("res", "")
        cnt[k] = cnt.get(k, 0) + 1
    for l in rep["bad"]:
        e = trace[l - 1]
        ctx.violation("plonk:%s:%s" % (e["ev"], e["res"]), {"event": e, "instance": insts[e["inst"]]})
    if not any(e["ev"] == "verify" and e["res"] == "accept" for e in trace) and not ctx.viol:
        raise ToolError("vacuous")
    return insts


def p15(ctx):
    run(ctx, "complete", 4000 if THOROUGH else 150)


def p16(ctx):
    insts = run(ctx, "sound", 2000 if THOROUGH else 60)
    sim(ctx, build(["h-plonk"]) + "/h-plonk-small", "PlonkSim", "plonk", insts[:400 if THOROUGH else 60], None, 3, 2)
    bound(ctx, ["plonk"], 5 if THOROUGH else 1)
