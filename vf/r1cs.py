"""P01, P02: linear combinations and constraint-system bookkeeping."""
from core import *


def gen(ctx, module, n, depth, env=None):
    out = ctx.tlc(module, simulate=n, depth=depth, workers=1, env=env)
    insts = ctx.marked(out, "INST")
    if not insts:
        raise ToolError("no histories generated")
    return insts


def p01(ctx):
    b = build(["h-r1cs"])
    insts = gen(ctx, "LinCombGen", 3000 if THOROUGH else 400, 100)
    ctx.sample(insts[0]["ops"][:6])
    trace = ctx.path("trace.ndjson")
    ctx.run_bin([b + "/h-lincomb", ctx.write("inst.ndjson", insts), trace])
    evs = ctx.read("trace.ndjson")
    rep = validate(ctx, "LinCombTrace", trace)
    ctx.cov["traces_validated_against_impl"] += len(insts)
    ctx.cov["operations"] = len(evs)
    ctx.cov["operators"] = len({(e["op"], e["f"]) for e in evs})
    ctx.cov["longest_result"] = max(len(e["r"]) for e in evs)
    for l in rep["bad"]:
        e = evs[l - 1]
        ctx.violation("lc:%s:%d" % (e["op"], e["f"]), {"event": e, "prefix": [x for x in evs[:l] if x["inst"] == e["inst"]][-6:]})
        break


def p02(ctx):
    b = build(["h-r1cs"])
    ctx.tlc("ConsSysMC", workers=8)  # short histories, exhaustively
    insts = gen(ctx, "ConsSysGen", 6000 if THOROUGH else 400, 60)
    ctx.sample(insts[0]["ops"][:6])
    insts += ctx.marked(ctx.tlc("ConsSysTwins", workers=1), "INST")
    trace = ctx.path("trace.ndjson")
    tr = ctx.path("trait.txt")
    ctx.run_bin([b + "/h-consys", ctx.write("inst.ndjson", insts), trace, tr])
    evs = ctx.read("trace.ndjson")
    rep = validate(ctx, "ConsSysTrace", trace)
    ctx.cov["traces_validated_against_impl"] += len(insts)
    ev = ctx.cov.setdefault("events", {})
    for e in evs:
        k = e["op"] + ":" + e["r"]["t"]
        ev[k] = ev.get(k, 0) + 1
    for l in rep["bad"]:
        e = evs[l - 1]
        ctx.violation("consys:%s:%s" % (e["op"], e["r"]["t"]), {"event": e, "prefix": [x for x in evs[:l] if x["inst"] == e["inst"]]})
    t = open(tr).read()
    if t != "ok":
        ctx.violation("consys:trait_num_constraints:" + t, {"call": "ConstraintSystem::num_constraints(&TestConstraintSystem)"})
