"""P21..P24: Libra and Hyrax against GKR.tla."""
from core import *
from sims import sim
from setup import sound
from fs import bound


def run(ctx, mode, kind, n, wide=False):
    tag = "." + kind + (".wide" if wide else "")
    out = ctx.tlc("GKRGen", simulate=n, depth=160 if wide else 80, workers=1,
                  env={"KIND": ("hyrax" if kind == "hyrax" else "libra") + ("-wide" if wide else ""),
                       **({"SHORT": "1"} if mode == "complete" else {})})
    seen, insts = set(), []
    for i in ctx.marked(out, "INST"):
        k = json.dumps(i, sort_keys=True)
        if k not in seen:
            seen.add(k)
            insts.append(i)
    if not insts:
        raise ToolError("no instances generated")
    ctx.sample({"instance": insts[len(insts) // 2]})
    b = build(["h-gkr"])
    inp = ctx.write("inst%s.ndjson" % tag, insts)
    outp = ctx.path("trace%s.ndjson" % tag)
    ctx.run_bin([b + "/h-gkr", mode, inp, outp, kind])
    trace = ctx.read("trace%s.ndjson" % tag)
    rep = validate(ctx, "GKRTrace", outp, {"PROP": mode})
    if rep["n"] != len(trace):
        raise ToolError("trace length mismatch")
    ctx.cov["traces_validated_against_impl"] += len(insts)
    cnt = ctx.cov.setdefault("events", {})
    for e in trace:
        k = kind + ":" + e["ev"] + ":" + e.get("res", "")
        cnt[k] = cnt.get(k, 0) + 1
    for l in rep["bad"]:
        e = trace[l - 1]
        ctx.violation("%s:%s:%s" % (kind, e["ev"], e.get("res")), {"event": e, "instance": insts[e["inst"]]})
    if not any(e["ev"] == "verify" and e["res"] == "accept" for e in trace) and not ctx.viol:
        raise ToolError("vacuous")


def simulated(ctx, module, kind, n, maxeq):
    small = build(["h-gkr"]) + "/h-gkr-small"
    out = ctx.tlc("GKRGen", simulate=n, depth=80, workers=1, env={"KIND": "hyrax" if kind == "hyrax" else "libra"})
    sim(ctx, small, module, kind, ctx.marked(out, "INST"), [kind], maxeq, 3)


def p21(ctx):
    run(ctx, "complete", "plain", 6000 if THOROUGH else 600)
    run(ctx, "complete", "zk", 4000 if THOROUGH else 300)
    run(ctx, "complete", "plain", 400 if THOROUGH else 40, True)
    run(ctx, "complete", "zk", 200 if THOROUGH else 20, True)


def p22(ctx):
    run(ctx, "sound", "plain", 1500 if THOROUGH else 150)
    run(ctx, "sound", "zk", 600 if THOROUGH else 50)
    run(ctx, "sound", "plain", 90 if THOROUGH else 12, True)
    run(ctx, "sound", "zk", 40 if THOROUGH else 6, True)
    simulated(ctx, "LibraSim", "plain", 400 if THOROUGH else 60, 60)
    simulated(ctx, "LibraSim", "zk", 120 if THOROUGH else 15, 90)
    sound(ctx, ["libra"])
    bound(ctx, ["libra", "zklibra"], 5 if THOROUGH else 1)


def p23(ctx):
    run(ctx, "complete", "hyrax", 4000 if THOROUGH else 300)
    run(ctx, "complete", "hyrax", 200 if THOROUGH else 20, True)


def p24(ctx):
    run(ctx, "sound", "hyrax", 600 if THOROUGH else 60)
    run(ctx, "sound", "hyrax", 40 if THOROUGH else 6, True)
    simulated(ctx, "HyraxSim", "hyrax", 150 if THOROUGH else 20, 60)
    sound(ctx, ["hyrax"])
    bound(ctx, ["hyrax"], 5 if THOROUGH else 1)
