"""P29: blinding of the published values (Blinding.tla)."""
from core import *
from fs import pick


def one(ctx, binary, name, insts, args, want):
    inp = ctx.write("inst.%s.ndjson" % name, insts)
    outp = ctx.path("trace.%s.ndjson" % name)

    def run(seed):
        ctx.run_bin([binary, "blind", inp, outp] + args, env={"VERIF_SEED": str(seed)})
        trace = ctx.read("trace.%s.ndjson" % name)
        rep = validate(ctx, "BlindingTrace", outp, {}, heap="4g", timeout=800)
        if rep["n"] != len(trace):
            raise ToolError("trace length mismatch")
        return trace, rep
    s = int(os.environ.get("VERIF_SEED", "1"))
    trace, rep = run(s)
    ctx.cov["traces_validated_against_impl"] += len(trace)
    gr = [e for e in trace if e["ev"] == "group"]
    cnt = ctx.cov.setdefault("groups", {})
    for e in gr:
        c = cnt.setdefault("%s:%s" % (name, e["group"]), {"groups": 0, "words": 0, "draws": 0})
        c["groups"] += 1
        c["words"] += len(e["rows"])
        c["draws"] += e["draws"]
    cnt["%s:rank" % name] = rep["ranks"]
    if rep["bad"]:
        # a rank that drops by accident of one choice of coins is no leak: another choice has to show it too
        again = set()
        for k in (1, 2):
            t2, r2 = run(s + 1000 * k)
            got = {(t2[b["line"] - 1]["inst"], t2[b["line"] - 1]["group"]) for b in r2["bad"]}
            again = got if k == 1 else again & got
        for b in rep["bad"]:
            e = trace[b["line"] - 1]
            if (e["inst"], e["group"]) in again:
                ctx.violation("blinding:%s:%s" % (name, e["group"]), {"rows": e["rows"], "rank": b["rank"], "left": b["left"], "event": e, "instance": insts[e["inst"]]})
    if not ctx.viol and {e["group"] for e in gr if e["rows"]} != want:
        raise ToolError("vacuous: %s" % name)


def p29(ctx):
    k = 50 if THOROUGH else 3
    sizes = [(2, 2, 2), (3, 2, 2), (2, 3, 2), (5, 2, 1)] + ([(3, 3, 1), (2, 3, 3), (3, 3, 2), (7, 2, 1)] if THOROUGH else [])
    for p, r, c in sizes:
        ctx.tlc("BlindingMC", env={"PRIME": str(p), "HEIGHT": str(r), "WIDTH": str(c)}, workers=6)
    b = build(["h-groth16", "h-bulletproofs", "h-spartan", "h-gkr"])
    r = pick(ctx, "R1CSGen", 24 * k, 45)
    ctx.sample({"instance": r[0]})
    both = {"commitments", "responses"}
    one(ctx, b + "/h-groth16", "groth16", r, [], {"commitments"})
    one(ctx, b + "/h-bulletproofs", "bulletproofs", r[:6 * k], [], both)
    one(ctx, b + "/h-spartan", "spartan-nizk", r[:6 * k], ["nizk"], both)
    one(ctx, b + "/h-spartan", "spartan-snark", r[:4 * k], ["snark"], both)
    g = pick(ctx, "GKRGen", 6 * k, 80, {"KIND": "libra"})
    one(ctx, b + "/h-gkr-small", "zklibra", g[:4 * k], ["zk"], both)
    one(ctx, b + "/h-gkr-small", "hyrax", pick(ctx, "GKRGen", 6 * k, 80, {"KIND": "hyrax"})[:4 * k], ["hyrax"], both)
    # witnesses of several committed rows
    w = [i for i in pick(ctx, "R1CSGen", 6 * k, 120, {"WIDE": "1"}) if i["na"] >= 9][:k]
    one(ctx, b + "/h-spartan", "spartan-nizk", w, ["nizk"], both)
    one(ctx, b + "/h-bulletproofs", "bulletproofs", w[:1], [], both)
    one(ctx, b + "/h-groth16", "groth16", w, [], {"commitments"})
    one(ctx, b + "/h-gkr-small", "zklibra", [i for i in pick(ctx, "GKRGen", 10 * k, 160, {"KIND": "libra-wide"}) if i["na"] >= 9][:k], ["zk"], both)
    one(ctx, b + "/h-gkr-small", "hyrax", [i for i in pick(ctx, "GKRGen", 10 * k, 160, {"KIND": "hyrax-wide"}) if i["na"] >= 9][:k], ["hyrax"], both)
