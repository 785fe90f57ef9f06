"""P26: the verifiers' challenges against FiatShamir.tla."""
from core import *
from r1cs_schemes import gen_instances


def pick(ctx, module, n, depth, env=None):
    seen, insts = set(), []
    for i in ctx.marked(ctx.tlc(module, simulate=n, depth=depth, workers=1, env=env or {}), "INST"):
        k = json.dumps(i, sort_keys=True)
        if k not in seen:
            seen.add(k)
            insts.append(i)
    if not insts:
        raise ToolError("no instances generated")
    return insts


def one(ctx, binary, name, insts, args):
    tag = "." + name
    inp = ctx.write("inst%s.ndjson" % tag, insts)
    outp = ctx.path("trace%s.ndjson" % tag)
    ctx.run_bin([binary, "fs", inp, outp] + args)
    trace = ctx.read("trace%s.ndjson" % tag)
    rep = validate(ctx, "FiatShamirTrace", outp, {})
    if rep["n"] != len(trace):
        raise ToolError("trace length mismatch")
    honest = [e for e in trace if e["ev"] == "honest"]
    ctx.cov["traces_validated_against_impl"] += len(honest)
    cnt = ctx.cov.setdefault("events", {})
    for e in trace:
        k = "%s:%s:%s" % (name, e["ev"], e["elems"][0][0] if e["ev"] == "alter" else e["res"])
        cnt[k] = cnt.get(k, 0) + 1
    for l in rep["bad"]:
        e = trace[l - 1]
        what = "+".join(sorted(x[0] for x in e["elems"])) if e["ev"] == "alter" else "coins"
        h = next(h for h in honest if h["inst"] == e["inst"])
        ctx.violation("fs:%s:%s" % (name, what), {"event": e, "honest": h, "instance": insts[e["inst"]]})
    if not any(e["res"] == "accept" for e in honest) and not ctx.viol:
        raise ToolError("vacuous: %s" % name)


SCHEMES = ["marlin", "bulletproofs", "spartan-nizk", "spartan-snark", "plonk", "libra", "zklibra", "hyrax"]


def bound(ctx, schemes, k=1):
    """The challenges of these schemes depend on the whole statement and on every earlier message."""
    names = {"h-marlin": "marlin", "h-plonk": "plonk", "h-bulletproofs": "bulletproofs", "h-spartan": "spartan", "h-gkr": "libra"}
    b = build([h for h in names if any(s.startswith(names[h]) or h == "h-gkr" and s in ("libra", "zklibra", "hyrax") for s in schemes)])
    r = gen_instances(ctx, 16 * k) if {"marlin", "bulletproofs", "spartan-nizk", "spartan-snark"} & set(schemes) else []
    g = pick(ctx, "GKRGen", 16 * k, 80, {"KIND": "libra"}) if {"libra", "zklibra"} & set(schemes) else []
    for s in schemes:
        if s == "marlin":
            one(ctx, b + "/h-marlin", s, r[:10 * k], [])
        elif s == "bulletproofs":
            one(ctx, b + "/h-bulletproofs", s, r[:10 * k], [])
        elif s == "spartan-nizk":
            one(ctx, b + "/h-spartan", s, r[:10 * k], ["nizk"])
        elif s == "spartan-snark":
            one(ctx, b + "/h-spartan", s, r[:6 * k], ["snark"])
        elif s == "plonk":
            one(ctx, b + "/h-plonk", s, pick(ctx, "PlonkGen", 16 * k, 60)[:12 * k], [])
        elif s == "libra":
            one(ctx, b + "/h-gkr", s, g, ["plain"])
        elif s == "zklibra":
            one(ctx, b + "/h-gkr", s, g, ["zk"])
        elif s == "hyrax":
            one(ctx, b + "/h-gkr", s, pick(ctx, "GKRGen", 16 * k, 80, {"KIND": "hyrax"}), ["hyrax"])


def p26(ctx):
    bound(ctx, SCHEMES, 25 if THOROUGH else 1)
