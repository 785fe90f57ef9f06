"""P11..P14, P17..P20: proof systems over R1CS against the ideal proof system (ProofSystem.tla)."""
from core import *
from sims import sim


def gen_instances(ctx, n, depth=45, wide=False, huge=False):
    out = ctx.tlc("R1CSGen", simulate=n, depth=400 if huge else 120 if wide else depth, workers=1, env={"HUGE": "1"} if huge else {"WIDE": "1"} if wide else None)
    seen, insts = set(), []
    for i in ctx.marked(out, "INST"):
        k = json.dumps(i, sort_keys=True)
        if k not in seen:
            seen.add(k)
            insts.append(i)
    if not insts:
        raise ToolError("no instances generated")
    ctx.sample({"instance": insts[len(insts) // 2]})
    return insts


def replay_hist(ctx, binary, insts, mode, name, tag="", args=()):
    """replay on the real code and validate; reports violations"""
    inp = ctx.write("inst%s.ndjson" % tag, insts)
    outp = ctx.path("trace%s.ndjson" % tag)
    ctx.run_bin([binary, mode, inp, outp] + list(args))
    trace = ctx.read("trace%s.ndjson" % tag)
    rep = validate(ctx, "ProofSystemTrace", outp, {"PROP": mode})
    if rep["n"] != len(trace):
        raise ToolError("trace length mismatch")
    ctx.cov["traces_validated_against_impl"] += len(insts)
    cnt = ctx.cov.setdefault("events", {})
    for e in trace:
        k = e["ev"] + ":" + e.get("res", "")
        cnt[k] = cnt.get(k, 0) + 1
    for l in rep["bad"]:
        e = trace[l - 1]
        inst = insts[e["inst"]]
        what = "%s:%s:%s" % (name, e["ev"], e.get("res"))
        if e["ev"] == "tamper":
            what += ":" + e["kind"]
        ctx.violation(what, {"event": e, "instance": inst})
    return trace


def statement_level(ctx, binary, mode, name, n_quick, n_thorough, args=()):
    insts = gen_instances(ctx, n_thorough if THOROUGH else n_quick)
    # a few circuits of up to 40 constraints and 30 and more variables
    w = max(2, n_quick // 20) if mode == "complete" else 2
    insts += gen_instances(ctx, 10 * w if THOROUGH else w, wide=True)
    # and some whose numbers of constraints, of inputs and of witnesses all exceed a byte
    insts += gen_instances(ctx, 4 if THOROUGH else 1, huge=True)
    trace = replay_hist(ctx, binary, insts, mode, name, args=args, tag="".join(args))
    acc = sum(1 for e in trace if e["ev"] == "verify" and e["res"] == "accept")
    if acc == 0 and not ctx.viol:
        raise ToolError("vacuous: no proof accepted")
    return trace


def published(ctx, schemes, circ=None):
    """no trapdoor relation in what the setup publishes (Setup.tla)"""
    from setup import sound
    sound(ctx, schemes, circ or gen_instances(ctx, 40))


def bound(ctx, schemes):
    """the verifier's challenges depend on the statement and on every earlier message (FiatShamir.tla)"""
    from fs import bound as fs_bound
    fs_bound(ctx, schemes, 5 if THOROUGH else 1)


def p11(ctx):
    b = build(["h-groth16"])
    statement_level(ctx, b + "/h-groth16", "complete", "groth16", 300, 5000)


def p12(ctx):
    b = build(["h-groth16"])
    statement_level(ctx, b + "/h-groth16", "sound", "groth16", 80, 1500)
    published(ctx, ["groth16"])


def p13(ctx):
    b = build(["h-marlin"])
    statement_level(ctx, b + "/h-marlin", "complete", "marlin", 60, 2000)


def p14(ctx):
    b = build(["h-marlin"])
    statement_level(ctx, b + "/h-marlin", "sound", "marlin", 60, 1500)
    sim(ctx, b + "/h-marlin", "MarlinSim", "marlin", gen_instances(ctx, 300 if THOROUGH else 60), None, 4, 3)
    published(ctx, ["marlin"])
    bound(ctx, ["marlin"])


def p17(ctx):
    b = build(["h-spartan"])
    statement_level(ctx, b + "/h-spartan", "complete", "spartan-nizk", 60, 2000, ["nizk"])
    statement_level(ctx, b + "/h-spartan", "complete", "spartan-snark", 30, 1000, ["snark"])


def p18(ctx):
    b = build(["h-spartan"])
    statement_level(ctx, b + "/h-spartan", "sound", "spartan-nizk", 60, 1500, ["nizk"])
    statement_level(ctx, b + "/h-spartan", "sound", "spartan-snark", 24, 450, ["snark"])
    r = gen_instances(ctx, 40)
    sim(ctx, b + "/h-spartan", "SpartanSim", "spartan-nizk", r[:30] if THOROUGH else r[:10], ["nizk"], 60, 3 if THOROUGH else 1)
    sim(ctx, b + "/h-spartan", "SpartanSim", "spartan-snark", r[:12] if THOROUGH else r[:3], ["snark"], 140, 2 if THOROUGH else 0)
    published(ctx, ["nizk", "snark"], r)
    bound(ctx, ["spartan-nizk", "spartan-snark"])


def p19(ctx):
    b = build(["h-bulletproofs"])
    statement_level(ctx, b + "/h-bulletproofs", "complete", "bulletproofs", 60, 2000)


def p20(ctx):
    b = build(["h-bulletproofs"])
    statement_level(ctx, b + "/h-bulletproofs", "sound", "bulletproofs", 50, 1200)
    sim(ctx, b + "/h-bulletproofs", "BulletproofsSim", "bulletproofs", gen_instances(ctx, 200 if THOROUGH else 40), None, 4, 3)
    published(ctx, ["bulletproofs"])
    bound(ctx, ["bulletproofs"])
