"""P28: the parallel build against the sequential one (Parallel.tla)."""
from core import *
from fs import pick

PK = ["groth16", "marlin", "plonk", "bulletproofs", "spartan", "gkr", "asvc", "mpc"]


def digest(lines):
    """the events of another driver as outputs: one per line"""
    res = []
    for e in lines:
        s = json.dumps(e, sort_keys=True)
        res.append({"inst": e["inst"], "what": e["ev"], "len": len(s), "dig": hashlib.sha256(s.encode()).hexdigest()[:16]})
    return res


def one(ctx, dirs, name, binary, insts, args, mode="par", threads=(1, 2, 3, 8)):
    inp = ctx.write("inst.%s.ndjson" % name, insts)
    runs = []
    for cfg in ["seq"] + ["t%d" % t for t in threads]:
        o = ctx.path("out.%s.%s.ndjson" % (name, cfg))
        cmd = [dirs[cfg != "seq"] + "/" + binary] + ([mode] if mode else []) + [inp, o] + args
        try:
            ctx.run_bin(cmd, env={} if cfg == "seq" else {"RAYON_NUM_THREADS": cfg[1:]})
        except Broken as b:
            if cfg == "seq":
                raise
            ctx.violation("par:%s:crash" % name, {"cfg": cfg, "detail": b.detail})
            continue
        g = ctx.read("out.%s.%s.ndjson" % (name, cfg))
        runs.append((cfg, g if mode == "par" else digest(g)))
    ev = []
    for n in range(len(insts)):
        for cfg, g in runs:
            ev.append({"ev": "start", "inst": n, "cfg": cfg})
            ev += [dict(e, ev="out", cfg=cfg) for e in g if e["inst"] == n]
            ev.append({"ev": "end", "inst": n, "cfg": cfg})
    trace = ctx.write("trace.%s.ndjson" % name, ev)
    rep = validate(ctx, "ParallelTrace", trace, {})
    if rep["n"] != len(ev):
        raise ToolError("trace length mismatch")
    ctx.cov["traces_validated_against_impl"] += len(insts) * (len(runs) - 1)
    cnt = ctx.cov.setdefault("outputs_compared", {})
    for e in ev:
        if e["ev"] == "out" and e["cfg"] != "seq":
            k = "%s:%s" % (name, e["what"])
            cnt[k] = cnt.get(k, 0) + 1
    for l in rep["bad"]:
        e = ev[l - 1]
        ctx.violation("par:%s:%s" % (name, e.get("what", "end")), {"event": e, "instance": insts[e["inst"]]})


def p28(ctx):
    k = 20 if THOROUGH else 1
    lv = "1" if THOROUGH else "0"
    ctx.tlc("ParallelMC", env={"LEVEL": lv, "IDENT": "0", "DRAW": "0"}, workers=6)
    # the model itself tells sections that do not have the property
    for i, d in (("1", "0"), ("0", "1")):
        if "Deterministic is violated" not in ctx.tlc("ParallelMC", env={"LEVEL": "0", "IDENT": i, "DRAW": d}, workers=4, expect_error=True):
            raise ToolError("the model misses a section that depends on its schedule")
    hs = ["h-" + p for p in PK]
    dirs = (build(hs), build(hs, features=",".join(h + "/parallel" for h in hs), target=os.path.join(HARN, "target", "par")))
    r = pick(ctx, "R1CSGen", 24 * k, 45)
    big = pick(ctx, "R1CSGen", 2 * k, 120, {"WIDE": "1"})
    ctx.sample({"instance": r[0]})
    t = (1, 2, 3, 5, 8, 16) if THOROUGH else (1, 2, 3, 8)
    one(ctx, dirs, "groth16", "h-groth16", r + big, [], threads=t)
    one(ctx, dirs, "marlin", "h-marlin", r[:12 * k] + big, [], threads=t)
    one(ctx, dirs, "bulletproofs", "h-bulletproofs", r[:10 * k] + big, [], threads=t)
    one(ctx, dirs, "spartan-nizk", "h-spartan", r[:10 * k] + big, ["nizk"], threads=t)
    one(ctx, dirs, "spartan-snark", "h-spartan", r[:6 * k] + big, ["snark"], threads=t)
    one(ctx, dirs, "plonk", "h-plonk", pick(ctx, "PlonkGen", 16 * k, 60)[:12 * k] + pick(ctx, "PlonkGen", 2 * k, 200, {"WIDE": "1"}), [], threads=t)
    g = pick(ctx, "GKRGen", 8 * k, 80, {"KIND": "libra"}) + pick(ctx, "GKRGen", 3 * k, 160, {"KIND": "libra-wide"})
    one(ctx, dirs, "libra", "h-gkr", g, ["plain"], threads=t)
    one(ctx, dirs, "zklibra", "h-gkr", g, ["zk"], threads=t)
    one(ctx, dirs, "hyrax", "h-gkr", pick(ctx, "GKRGen", 8 * k, 80, {"KIND": "hyrax"}) + pick(ctx, "GKRGen", 3 * k, 160, {"KIND": "hyrax-wide"}), ["hyrax"], threads=t)
    one(ctx, dirs, "asvc", "h-asvc", pick(ctx, "ASVCGen", 40 * k, 40), [], mode="", threads=t)
    one(ctx, dirs, "marlin-pc", "h-mpc", pick(ctx, "MarlinPCGen", 40 * k, 40), [], mode="", threads=t)
