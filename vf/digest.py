"""P35: digests of circuits and parameters (Digest.tla)."""
from core import *
from concurrent.futures import ThreadPoolExecutor


def families(ctx, kind, n):
    seen, l = set(), []
    for i in ctx.marked(ctx.tlc("DigestGen", simulate=n, depth=12, workers=1, env={"KIND": kind}), "INST"):
        k = json.dumps(i["members"][0], sort_keys=True)
        if k not in seen:
            seen.add(k)
            l.append(i)
    if not l:
        raise ToolError("no families generated")
    return l


def row(i, n):
    return {"a": [[1, i, 1]], "b": [[1, (i + 1) % n, 1]], "c": [[1, (i + 2) % n, 2]]}


def params(ks):
    return [{"kind": "params", "size": k, "circ": {"ni": 1, "na": 2 * k, "cons": [row(i, 2 * k) for i in range(2 * k - 1)]}} for k in ks]


def p35(ctx):
    ctx.tlc("DigestMC", workers=8)  # framed rows are told apart; unframed ones are not
    k = 10 if THOROUGH else 1
    parts = [("r1cs", families(ctx, "r1cs", 70 * k)), ("layered", families(ctx, "layered", 60 * k)), ("params", params((1, 2, 3, 4, 5) if THOROUGH else (1, 2, 3)))]
    b = build(["h-digest"])
    ctx.sample({"family": {"kind": "r1cs", "members": parts[0][1][0]["members"][:3]}})
    split = [("%s.%d" % (t, j), l[j::3]) for t, l in parts for j in range(3) if l[j::3]]

    def one(p):
        tag, insts = p
        tr = ctx.path("trace.%s.ndjson" % tag)
        ctx.run_bin([b + "/h-digest", ctx.write("inst.%s.ndjson" % tag, insts), tr])
        evs = ctx.read("trace.%s.ndjson" % tag)
        return tag, insts, evs, validate(ctx, "DigestTrace", tr)

    cnt = ctx.cov.setdefault("digests", {})
    with ThreadPoolExecutor(4) as ex:
        for tag, insts, evs, rep in ex.map(one, split):
            if rep["n"] != len(evs):
                raise ToolError("trace length mismatch")
            ctx.cov["traces_validated_against_impl"] += len(insts)
            for e in evs:
                cnt[e["what"]] = cnt.get(e["what"], 0) + 1
            for l in rep["bad"]:
                e = evs[l - 1]
                ctx.violation("digest:%s:%s" % (e["what"], e["res"]),
                              {"event": e, "same_digest": [x for x in evs[:l - 1] if x["fam"] == e["fam"] and x["h"] == e["h"]][:2]})
