"""P25, P30: the aggregatable subvector commitment against ASVC.tla and
marlin's polynomial commitment against MarlinPC.tla."""
from core import *
from setup import sound


def p25(ctx):
    # the algebra of the model itself, exhaustively on a small domain
    ctx.tlc("ASVCMC", env={"LEVEL": "30" if THOROUGH else "4"}, workers=6)
    out = ctx.tlc("ASVCGen", simulate=3000 if THOROUGH else 250, depth=40, workers=1)
    seen, insts = set(), []
    for i in ctx.marked(out, "INST"):
        k = json.dumps(i, sort_keys=True)
        if k not in seen:
            seen.add(k)
            insts.append(i)
    if not insts:
        raise ToolError("no instances generated")
    ctx.sample({"instance": insts[0]})
    b = build(["h-asvc"])
    inp = ctx.write("inst.ndjson", insts)
    outp = ctx.path("trace.ndjson")
    ctx.run_bin([b + "/h-asvc", inp, outp])
    trace = ctx.read("trace.ndjson")
    rep = validate(ctx, "ASVCTrace", outp, {})
    if rep["n"] != len(trace):
        raise ToolError("trace length mismatch")
    ctx.cov["traces_validated_against_impl"] += len(insts)
    cnt = ctx.cov.setdefault("events", {})
    for e in trace:
        k = e["ev"] + (":" + e["alter"] if "alter" in e else "") + ":" + e.get("res", "")
        cnt[k] = cnt.get(k, 0) + 1
    for l in rep["bad"]:
        e = trace[l - 1]
        ctx.violation("asvc:%s:%s" % (e["ev"], e.get("res")), {"event": e, "instance": insts[e["inst"]]})
    if not any(e["ev"] in ("verify", "check") and e["res"] == "accept" for e in trace) and not ctx.viol:
        raise ToolError("vacuous")
    sound(ctx, ["asvc"])


def p30(ctx):
    # the algebra of the model itself, exhaustively on a small domain
    ctx.tlc("MarlinPCMC", env={"LEVEL": "6" if THOROUGH else "0"}, workers=6)
    out = ctx.tlc("MarlinPCGen", simulate=2500 if THOROUGH else 150, depth=40, workers=1)
    seen, insts = set(), []
    for i in ctx.marked(out, "INST"):
        k = json.dumps(i, sort_keys=True)
        if k not in seen:
            seen.add(k)
            insts.append(i)
    if not insts:
        raise ToolError("no instances generated")
    ctx.sample({"instance": insts[0]})
    b = build(["h-mpc"])
    inp = ctx.write("inst.ndjson", insts)
    outp = ctx.path("trace.ndjson")
    ctx.run_bin([b + "/h-mpc", inp, outp])
    trace = ctx.read("trace.ndjson")
    rep = validate(ctx, "MarlinPCTrace", outp, {})
    if rep["n"] != len(trace):
        raise ToolError("trace length mismatch")
    ctx.cov["traces_validated_against_impl"] += len(insts)
    cnt = ctx.cov.setdefault("events", {})
    for e in trace:
        k = e["ev"] + (":" + e["alter"] if "alter" in e else "") + ":" + e.get("res", "")
        cnt[k] = cnt.get(k, 0) + 1
    for l in rep["bad"]:
        e = trace[l - 1]
        ctx.violation("mpc:%s:%s" % (e["ev"], e.get("res")), {"event": e, "instance": insts[e["inst"]]})
    if not any(e["ev"] in ("verify", "check") and e["res"] == "accept" for e in trace) and not ctx.viol:
        raise ToolError("vacuous")
    sound(ctx, ["marlin"])
