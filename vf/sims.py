"""Transcripts built by the specification (Sim.tla and its users), judged by the real verifier."""
from core import *


def sim(ctx, binary, module, name, insts, args, maxeq, dist=1):
    inp = ctx.write("sim.inst.%s.ndjson" % name, insts)
    st = ctx.path("sim.set.%s.ndjson" % name)
    ctx.run_bin([binary, "sim", inp, st] + (args or ["-"]))
    sets = ctx.read("sim.set.%s.ndjson" % name)
    keep = [i for i, s in enumerate(sets) if not s.get("skip")]
    if len(sets) != len(insts):
        raise ToolError("settings missing: %s" % name)
    if not keep:
        raise Broken("sim:%s:no-keys" % name, {"instances": insts[:2]})
    use = ctx.write("sim.use.%s.ndjson" % name, [sets[i] for i in keep])
    got = ctx.marked(ctx.tlc(module, env={"INST": use, "MAXEQ": str(maxeq), "DIST": str(dist)}, workers=8, timeout=800), "SIM")
    # the specification counts the instances it was given; a set comes out as an array in any order
    sims = [dict(g, inst=keep[g["inst"] - 1] + 1, hit=sorted(g["hit"])) for g in got]
    sims.sort(key=lambda g: (g["inst"], len(g["hit"]), g["hit"]))
    if any(g["eqs"] > maxeq for g in sims):
        raise ToolError("%s: MAXEQ %d is too small" % (name, maxeq))
    sp = ctx.write("sims.%s.ndjson" % name, sims)
    outp = ctx.path("sim.trace.%s.ndjson" % name)
    ctx.run_bin([binary, "judge", inp, outp] + (args or ["-"]) + [sp, st])
    trace = ctx.read("sim.trace.%s.ndjson" % name)
    if len(trace) != len(sims):
        raise ToolError("verdicts missing: %s %d of %d" % (name, len(trace), len(sims)))
    rep = validate(ctx, "SimTrace", outp, {})
    if rep["n"] != len(trace):
        raise ToolError("trace length mismatch")
    ctx.cov["traces_validated_against_impl"] += len(trace)
    c = ctx.cov.setdefault("simulated_transcripts", {}).setdefault(name, {"settings": len(keep), "valid": 0, "one_equation_broken": 0, "two_broken": 0, "equations": sorted({g["eqs"] for g in sims})})
    for g in sims:
        c[["valid", "one_equation_broken", "two_broken"][len(g["hit"])]] += 1
    for l in rep["bad"]:
        e = trace[l - 1]
        ctx.violation("sim:%s:%s" % (name, "accepted" if e["res"] == "accept" else "rejected"), {"event": e, "transcript": sims[l - 1], "instance": insts[e["inst"]]})
