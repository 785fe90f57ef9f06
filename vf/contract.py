"""P33: the on-chain verifiers (Contract.tla): the real entry points against a stand-in for ckb-std."""
from core import *
from concurrent.futures import ThreadPoolExecutor

BINS = {"groth16": "universal_groth16_verifier", "bulletproofs": "mini_bulletproofs_verifier", "marlin": "universal_marlin_verifier",
        "spartan_nizk": "universal_spartan_nizk_verifier", "spartan_snark": "universal_spartan_snark_verifier",
        "plonk": "universal_plonk_verifier", "libra": "mini_libra_zk_linear_gkr_verifier", "hyrax": "mini_hyrax_zk_linear_gkr_verifier"}
SPACE = os.path.join(ROOT, "harness_ckb")


def contracts(ctx):
    """the contracts, each compiled against the library as it is now"""
    env = cargo_env(os.path.join(SPACE, "target"))
    refresh(SPACE, env["CARGO_TARGET_DIR"])
    cmd = ["cargo", "build", "--offline", "--keep-going"]
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=SPACE)
    ok = dict(BINS)
    if r.returncode != 0:
        for s, b in BINS.items():
            one = subprocess.run(["cargo", "build", "--offline", "--bin", b], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=SPACE)
            if one.returncode != 0:
                if "could not compile `h-ckb`" not in one.stdout:
                    raise ToolError("contract build failed:\n" + one.stdout[-3000:])
                del ok[s]
                ctx.violation("contract:build:" + s, {"contract": b, "out": one.stdout[-2500:]})
    return os.path.join(SPACE, "target", "debug"), ok


def p33(ctx):
    ctx.tlc("ContractMC", workers=8, timeout=800)
    b = build(["h-contract"])
    where, schemes = contracts(ctx)

    def one(s):
        insts = ctx.marked(ctx.tlc("ContractGen", env={"SCH": s, "FULL": 1 if THOROUGH else 0}, workers=1), "INST")
        inst = ctx.write("inst-%s.ndjson" % s, insts)
        trace = ctx.path("trace-%s.ndjson" % s)
        scratch = ctx.path("tx-" + s)
        os.makedirs(scratch)
        ctx.run_bin([b + "/h-contract", inst, trace, where, scratch])
        return ctx.read(trace)
    with ThreadPoolExecutor(8) as ex:
        evs = [e for r in ex.map(one, sorted(schemes)) for e in r]
    trace = ctx.write("trace.ndjson", evs)
    rep = validate(ctx, "ContractTrace", trace, timeout=800)
    if rep["n"] != len(evs):
        raise ToolError("trace length mismatch")
    ctx.cov["traces_validated_against_impl"] += len(evs)
    ctx.cov["transactions"] = rep["seen"]
    ctx.sample(evs[0])
    for x in rep["bad"]:
        ctx.violation("contract:" + x["kind"], evs[x["line"] - 1])
    s = rep["seen"]
    if not ctx.viol and min(s["unlocked"], s["verify"], s["encoding"], s["missing"], s["flip"]) < 5:
        raise ToolError("vacuous: %s" % s)
