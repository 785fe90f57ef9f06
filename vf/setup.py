"""P34: what parameter generation publishes (Setup.tla)."""
from core import *
from concurrent.futures import ThreadPoolExecutor
from r1cs_schemes import gen_instances


def pick(l, n):
    return [l[i * len(l) // n] for i in range(min(n, len(l)))]


def dom(c):
    n = 1
    while n < len(c["cons"]) + c["ni"] + 1:
        n *= 2
    return n


# a large circuit, and circuits that leave their inputs alone
BIG = {"ni": 2, "na": 40, "cons": [{"a": [[1, i, 1]], "b": [[1, i + 1, 1]], "c": [[1, (i + 2) % 40, 1]]} for i in range(39)]}
LOOSE = [{"ni": n, "na": 2, "cons": [{"a": [[1, 0, 1]], "b": [[1, 1, 1]], "c": [[1, 0, 1]]}] * m} for n, m in ((1, 2), (2, 1), (3, 4), (5, 3))]


def wide(circ):
    return sorted((c for c in circ if c["na"] and c["ni"]), key=lambda c: -(len(c["cons"]) + c["ni"] + c["na"]))


def mid(circ):
    return [c for c in circ if dom(c) in (4, 8, 16) and c["na"] > 0]


def keys(s, circ, n):
    cs = pick(wide(circ), n) + ([BIG] if s in ("nizk", "snark") else []) + (LOOSE if s == "groth16" else [])
    return [{"what": "keys", "scheme": s, "circ": c} for c in cs]


def sized(s, ns):
    return [{"what": "keys", "scheme": s, "size": n} for n in ns]


def g16(cs):
    return [{"what": "published", "scheme": "groth16", "circ": c, "size": 0, "seeds": 60} for c in cs]


def powers(s, ns):
    return [{"what": "published", "scheme": s, "circ": 0, "size": n, "seeds": 30} for n in ns]


def p34(ctx):
    ctx.tlc("SetupMC", workers=8, timeout=800)
    k = 4 if THOROUGH else 1
    circ = gen_instances(ctx, 40 * k)
    groups = [keys(s, circ, n * k) for s, n in (("nizk", 3), ("snark", 3), ("bulletproofs", 5), ("groth16", 5))]
    groups.append(sized("libra", (1, 2, 3, 5, 7, 8, 10, 12) if THOROUGH else (1, 2, 5, 8, 10)) + sized("hyrax", (1, 2, 3, 5, 7, 8, 10, 12) if THOROUGH else (1, 2, 5, 8, 10)))
    groups.append(sized("marlin", (1, 4, 19, 64)) + sized("asvc", (1, 2, 3, 8, 32)))
    groups += [g16(pick(mid(circ), 4 * k)), g16(LOOSE[2:] + pick(mid(circ)[::-1], 2 * k))]
    groups.append(powers("marlin", (1, 7, 16, 50)) + powers("asvc", (2, 4, 16)))
    relations(ctx, groups)


def sound(ctx, schemes, circ=None):
    """the part of Setup that the soundness of a scheme rests on; used by the schemes' own checks"""
    k = 3 if THOROUGH else 1
    groups = []
    for s in schemes:
        if s == "groth16":
            groups += [keys(s, circ, k), g16(LOOSE[2:3] + pick(mid(circ), k))]
        elif s in ("nizk", "snark", "bulletproofs"):
            groups.append(keys(s, circ, 2 * k))
        elif s in ("libra", "hyrax"):
            groups.append(sized(s, (2, 5, 8)))
        else:
            groups.append(sized(s, (3, 16)) + powers(s, (7,)))
    relations(ctx, groups)


def relations(ctx, groups):
    b = build(["h-setup"])

    def one(i):
        inst = ctx.write("setup-inst%d.ndjson" % i, groups[i])
        trace = ctx.path("setup-trace%d.ndjson" % i)
        ctx.run_bin([b + "/h-setup", inst, trace])
        evs = ctx.read("setup-trace%d.ndjson" % i)
        if not evs:
            raise Broken("setup:none", {"instances": groups[i][:2]})
        return evs, validate(ctx, "SetupTrace", trace, timeout=800, heap="2g")
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, range(len(groups))))
    for (evs, rep), g in zip(res, groups):
        if rep["n"] != len(evs):
            raise ToolError("trace length mismatch")
        ctx.cov["traces_validated_against_impl"] += sum(len(e["rows"]) for e in evs)
        for x in rep["bad"]:
            e = evs[x["line"] - 1]
            if x["kind"] == "few" and e["what"] == "key":
                raise Broken("setup:fails:" + e["scheme"], {"instance": g[e["inst"]], "rows": len(e["rows"])})
            if x["kind"] == "few":
                x["kind"] = "fails:" + e["scheme"]
            ctx.violation("setup:" + x["kind"], {"instance": g[e["inst"]], "rows": e["rows"][:12]})
        for n in range(len(g)):
            if not any(e["inst"] == n for e in evs):
                ctx.violation("setup:fails:" + g[n]["scheme"], {"instance": g[n]})
        c = ctx.cov.setdefault("draws", {})
        for k2, v in rep["seen"].items():
            c[k2] = c.get(k2, 0) + v
