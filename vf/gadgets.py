"""P03..P10: gadget circuits, recorded as complete constraint systems and judged by TLC."""
from core import *


def insts(ctx, module, what, n):
    out = ctx.tlc(module, env={"WHAT": what, "N": n}, workers=1)
    got = ctx.marked(out, "INST")
    if not got:
        raise ToolError("no instances")
    return got


def small(ctx, what, n):
    b = build(["h-gadgets"])
    q = insts(ctx, "GadgetsGen", what, n)
    ctx.sample(q[0])
    trace = ctx.path("trace.ndjson")
    ctx.run_bin([b + "/h-small", ctx.write("inst.ndjson", q), trace])
    rep = judge(ctx, "GadgetsTrace", trace, q)
    ev = ctx.read("trace.ndjson")
    ctx.cov["traces_validated_against_impl"] += len(ev)
    ops = ctx.cov.setdefault("gadgets", {})
    for e in ev:
        ops[e["q"]["op"]] = ops.get(e["q"]["op"], 0) + 1
    ctx.cov["exhaustive_systems"] = sum(1 for e in ev if e["q"]["full"])
    for l, why in rep:
        e = ev[l - 1]
        ctx.violation("gadget:%s:%s" % (e["q"]["op"], why), e)


def judge(ctx, module, trace, q, parts=8, heap="3g"):
    """split the trace over several TLC processes"""
    lines = open(trace).read().splitlines()
    if len(lines) != len(q):
        raise ToolError("driver stopped early")
    from concurrent.futures import ThreadPoolExecutor
    parts = min(parts, max(1, len(lines) // 4))
    files = []
    for i in range(parts):
        p = trace + ".%d" % i
        open(p, "w").write("\n".join(lines[i::parts]) + "\n")
        files.append(p)
    with ThreadPoolExecutor(8) as ex:
        reps = list(ex.map(lambda f: validate(ctx, module, f, heap=heap, timeout=800), files))
    bad = []
    for i, r in enumerate(reps):
        bad += [((l - 1) * parts + i + 1, why) for l, why in r["bad"]]
    return sorted(bad)


def p03(ctx):
    small(ctx, "P03", 1)


def p07(ctx):
    small(ctx, "P07", 8 if THOROUGH else 2)


def p08(ctx):
    small(ctx, "P08", 2 if THOROUGH else 1)


def words(ctx, q):
    b = build(["h-gadgets"])
    ctx.sample(q[0] if len(json.dumps(q[0])) < 3000 else {k: v for k, v in q[0].items() if k not in ("k", "v")})
    # the driver works on parts of the list at once
    from concurrent.futures import ThreadPoolExecutor
    parts = min(8, len(q))
    def part(i):
        src = ctx.write("inst.%d.ndjson" % i, q[i::parts])
        dst = ctx.path("trace.%d.ndjson" % i)
        ctx.run_bin([b + "/h-word", src, dst], timeout=800)
        return dst
    with ThreadPoolExecutor(8) as ex:
        files = list(ex.map(part, range(parts)))
        reps = list(ex.map(lambda f: validate(ctx, "WordsTrace", f, heap="3g", timeout=800), files))
    hints = []
    cov = ctx.cov.setdefault("word_circuits", {"instances": 0, "wires": 0, "constraints": 0, "systems_checked_in_full": 0, "wires_shown_unique": 0, "undetermined_wires": 0})
    for f, r in zip(files, reps):
        ev = [json.loads(x) for x in open(f)]
        for e in ev:
            if e["rc"] == "ok":
                cov["instances"] += 1
                cov["wires"] += e["n"]
                cov["constraints"] += e["nc"]
                cov["undetermined_wires"] += e["undet"]
                if e["q"]["full"]:
                    cov["systems_checked_in_full"] += 1
                    cov["wires_shown_unique"] += e["n"] - e["undet"]
        for l, why in r["bad"]:
            e = ev[l - 1]
            if why == "hint":
                hints.append(e)
                continue
            ctx.violation("word:%s:%s" % (e["q"]["op"], why), {k: v for k, v in e.items() if k not in ("sys", "rank", "rule", "v")})
    ctx.cov["traces_validated_against_impl"] += cov["instances"]
    cov["hints_rejected"] = len(hints)


def p04(ctx):
    small(ctx, "P04", 3000 if THOROUGH else 400)
    words(ctx, insts(ctx, "WordsGen", "P04", 5000 if THOROUGH else 700))


def p05(ctx):
    words(ctx, insts(ctx, "WordsGen", "P05F", 3 if THOROUGH else 2) + insts(ctx, "WordsGen", "P05", 900 if THOROUGH else 140))


def p06(ctx):
    b = build(["h-gadgets"])
    q = insts(ctx, "FieldHashGen", "P06", 1200 if THOROUGH else 240)
    ctx.sample(q[0])
    from concurrent.futures import ThreadPoolExecutor
    parts = 8
    def part(i):
        dst = ctx.path("trace.%d.ndjson" % i)
        ctx.run_bin([b + "/h-field", ctx.write("inst.%d.ndjson" % i, q[i::parts]), dst], timeout=800)
        return dst, validate(ctx, "FieldHashTrace", dst, heap="3g", timeout=800)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(part, range(parts)))
    cov = ctx.cov.setdefault("field_hashes", {"instances": 0, "systems_checked_in_full": 0, "wires": 0, "wires_not_fixed_stepwise": 0})
    for f, r in res:
        ev = [json.loads(x) for x in open(f)]
        cov["wires_not_fixed_stepwise"] += r["open"]
        for e in ev[1:]:
            cov["instances"] += 1
            if e["q"]["full"]:
                cov["systems_checked_in_full"] += 1
                cov["wires"] += e["n"]
        for l, why in r["bad"]:
            e = ev[l - 1]
            ctx.violation("fieldhash:%s:%s" % (e["q"]["h"], why), {k: v for k, v in e.items() if k not in ("sys", "v", "span")})
    ctx.cov["traces_validated_against_impl"] += cov["instances"]


def part_run(ctx, exe, module, q, parts=8):
    """driver and trace specification on parts of the instance list at once; yields (event, why or None)"""
    from concurrent.futures import ThreadPoolExecutor
    parts = max(1, min(parts, len(q)))
    def part(i):
        dst = ctx.path("trace.%s.%d.ndjson" % (module, i))
        ctx.run_bin([exe, ctx.write("inst.%s.%d.ndjson" % (module, i), q[i::parts]), dst], timeout=800)
        return dst, validate(ctx, module, dst, heap="3g", timeout=800)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(part, range(parts)))
    evs, bad = [], []
    for f, r in res:
        ev = [json.loads(x) for x in open(f)]
        if r["n"] != len(ev):
            raise ToolError("trace length mismatch")
        evs += ev
        bad += [(ev[l - 1], why) for l, why in r["bad"]]
    if len(evs) != len(q):
        raise ToolError("driver stopped early")
    return evs, bad


def p09(ctx):
    b = build(["h-gadgets"])
    ctx.tlc("CBMTMC", workers=8, timeout=800)
    q = insts(ctx, "CBMTGen", "", 40 if THOROUGH else 17)
    ctx.sample(q[5])
    evs, bad = part_run(ctx, b + "/h-cbmt", "CBMTTrace", q)
    cov = ctx.cov.setdefault("merkle", {"trees": 0, "proof_requests": 0, "verify_calls": 0})
    for e in evs:
        cov["trees"] += e["ev"] == "tree"
        cov["proof_requests"] += len(e.get("proofs", []))
        cov["verify_calls"] += len(e.get("cs", []))
    ctx.cov["traces_validated_against_impl"] += len(evs)
    for e, why in bad:
        ctx.violation("cbmt:%s" % why, e)


def p10(ctx):
    b = build(["h-gadgets"])
    q = insts(ctx, "SetMemberGen", "toy", 60 if THOROUGH else 12) + insts(ctx, "SetMemberGen", "field", 9 if THOROUGH else 5) + insts(ctx, "SetMemberGen", "sha", 7 if THOROUGH else 4)
    # the expensive ones last, dealt out evenly
    ctx.sample(q[0])
    ctx.sample(q[-1])
    evs, bad = part_run(ctx, b + "/h-member", "SetMemberTrace", q)
    cov = ctx.cov.setdefault("membership_circuits", {})
    for e in evs:
        k = e["q"]["ev"] + ":" + e["q"].get("h", "full" if e["q"].get("full") else "honest")
        cov[k] = cov.get(k, 0) + 1
    ctx.cov["traces_validated_against_impl"] += len(evs)
    for e, why in bad:
        ctx.violation("member:%s:%s" % (e["q"].get("h", "toy"), why), {k: v for k, v in e.items() if k not in ("sys", "v")})
