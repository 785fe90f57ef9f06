"""P31: the command line tool (CLI.tla): real commands in scratch directories."""
from core import *
from concurrent.futures import ThreadPoolExecutor

CURVE = "bls12_381"
DEF = {"scheme": "", "circ": "", "curve": CURVE, "slot": "kept", "stmt": "", "truth": False, "sane": True, "wrote": False, "hex": "",
       "ok": False, "rec": "", "header": [], "got": "", "there": True, "honest": True, "bound": True}


def lehex(z):
    return int(z).to_bytes(32, "little").hex()


class Box:
    """one history: a directory of its own, the commands run in it"""
    def __init__(self, ctx, b, i, hashes):
        self.b, self.i, self.hashes = b, i, hashes
        self.dir = ctx.path("box%d" % i)
        os.makedirs(self.dir)
        self.kept = None          # (scheme, circuit) of the file the copy was taken from
        self.ev = []

    def run(self, name, args):
        try:
            r = subprocess.run([os.path.join(self.b, "cli-" + name)] + args, cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=240)
            return r.returncode, r.stdout.decode("utf8", "replace")
        except subprocess.TimeoutExpired:
            return -1, ""

    def file(self, slot):
        if slot == "kept":
            return os.path.join(self.dir, "kept.json")
        s, c = slot.rsplit("-", 1)
        return os.path.join(self.dir, "proof_files", "%s-%s-%s.proof.json" % (s, CURVE, c))

    def setups(self, s, c):
        d = os.path.join(self.dir, "setup_files", "%s-%s-%s" % (s, CURVE, c))
        return [d + x for x in ((".pk", ".vk") if s == "groth16" else (".universal_setup",))]

    def load(self, slot):
        try:
            return json.load(open(self.file(slot)))
        except Exception:
            return None

    def put(self, slot, j):
        with open(self.file(slot), "w") as f:
            json.dump(j, f)

    def stamp(self, p):
        try:
            return open(p, "rb").read(), os.stat(p).st_mtime_ns
        except OSError:
            return None

    def stmt(self, q):
        if q["circ"] == "hash":
            return self.hashes.get(q["args"][0], "") if q["args"] else ""
        return q["args"][2] if len(q["args"]) > 2 else ""

    def step(self, q):
        e = dict(DEF, inst=self.i, op=q["op"], scheme=q["scheme"], circ=q["circ"], curve=q["curve"], slot=q["slot"], truth=q["truth"], sane=q["sane"])
        op, slot = q["op"], q["slot"]
        if op == "setup":
            old = [self.stamp(p) for p in self.setups(q["scheme"], q["circ"])]
            rc, _ = self.run("setup", [q["scheme"], q["curve"], q["circ"]])
            new = [self.stamp(p) for p in self.setups(q["scheme"], q["circ"])]
            e["ok"] = rc == 0 and all(n is not None and n != o for o, n in zip(old, new))
        elif op == "drop":
            for p in self.setups(q["scheme"], q["circ"]):
                if os.path.exists(p):
                    os.remove(p)
            e["slot"], e["there"] = "%s-%s" % (q["scheme"], q["circ"]), os.path.exists(self.file("%s-%s" % (q["scheme"], q["circ"])))
        elif op == "prove":
            e["stmt"] = self.stmt(q)
            e["hex"] = lehex(e["stmt"]) if q["circ"] == "mini" and q["sane"] and e["stmt"] else e["stmt"]
            p = self.file("%s-%s" % (q["scheme"], q["circ"])).replace(CURVE, q["curve"])
            old = self.stamp(p)
            rc, _ = self.run("prove", [q["scheme"], q["curve"], q["circ"]] + q["args"])
            new = self.stamp(p)
            e["wrote"] = new is not None and new != old
            e["ok"] = rc == 0
            if e["wrote"]:
                try:
                    j = json.load(open(p))
                    e["rec"], e["header"] = str(j["params"][0]), [j["scheme"], j["circuit"], j["curve"]]
                except Exception:
                    e["rec"] = "unreadable"
        elif op == "verify":
            if os.path.exists(self.file(slot)):
                rc, out = self.run("verify", [self.file(slot)])
                last = [x for x in out.splitlines() if x.startswith("Verify is:")]
                e["got"] = last[-1].split(":")[1].strip() if rc == 0 and len(last) == 1 else "error"
            else:
                rc, out = self.run("verify", [self.file(slot)])
                e["got"] = "true" if "Verify is: true" in out else "error"
        else:
            e["there"] = os.path.exists(self.file(slot))
            if op == "restore":
                if os.path.exists(self.file("kept")):
                    os.makedirs(os.path.dirname(self.file(slot)), exist_ok=True)
                    shutil.copyfile(self.file("kept"), self.file(slot))
            elif e["there"]:
                self.edit(q, e)
        self.ev.append(e)

    def edit(self, q, e):
        op, slot, how = q["op"], q["slot"], q["how"]
        kept = self.load("kept")
        if op == "keep":
            shutil.copyfile(self.file(slot), self.file("kept"))
        elif op == "erase":
            os.remove(self.file(slot))
        j = self.load(slot)
        if op == "mangle":
            raw = open(self.file(slot)).read()
            if not isinstance(j, dict) or how == 0:
                raw = raw[:-1] if raw.endswith("}") else raw[:len(raw) // 2]
                open(self.file(slot), "w").write(raw)
                return
            if how == 1:
                j["params"] = []
            elif how == 2:
                j["curve"] = "bn_256"
            elif how == 3:
                j["proof"] = str(j.get("proof"))[:-1]
            elif how == 8:
                j["proof"] = str(j.get("proof")) + "0"
            elif how == 9:
                x = str(j.get("proof"))
                at = [i for i in range(0, len(x) - 1, 2) if x[i:i + 2] == "00"]
                j["proof"] = x[:at[len(at) // 2]] + "zz" + x[at[len(at) // 2] + 2:] if at else x + "zz"
            else:
                j.pop(("proof", "params", "scheme", "circuit")[how % 4], None)
            self.put(slot, j)
            return
        if op not in ("setrec", "relabel", "rescheme", "cut", "flip", "graft"):
            return
        if not isinstance(j, dict):
            # a mangled file stays mangled
            e["op"], e["stmt"] = "mangle", ""
            return
        rec = j["params"][0] if isinstance(j.get("params"), list) and j["params"] else ""
        if op == "setrec":
            num = int(rec) if rec.isdigit() else 7
            hs = sorted(self.hashes.values())
            krec = kept["params"][0] if isinstance(kept, dict) and kept.get("params") else "12"
            v = [str((num + 1) % 2**64), "0" if rec != "0" else "1", "abc", krec, str(2**64 - 1), hs[how % len(hs)]][how]
            if j.get("circuit") == "hash":
                v = [hs[0], hs[1], "00" * 32, krec, "zz", rec[:-2]][how]
            j["params"] = [v]
            e["stmt"] = v
        elif op == "relabel":
            if j.get("circuit") == "mini" and rec.isdigit() and int(rec) < 2**64:
                j["params"] = [lehex(rec)]
            j["circuit"] = q["circ"]
            e["stmt"] = j["params"][0] if j.get("params") else ""
        elif op == "rescheme":
            j["scheme"] = q["scheme"]
        elif op in ("cut", "flip"):
            x = j.get("proof", "")
            if op == "flip" and j.get("scheme") == "groth16" and len(x) == 384:
                j["proof"] = x[:how] + "0123456789abcdef"[int(x[how], 16) ^ (1 + how % 15)] + x[how + 1:]
            else:
                e["op"] = "cut"
                j["proof"] = x[:max(0, len(x) - 2 * how)] if how else ""
        elif op == "graft" and isinstance(kept, dict):
            j["proof"] = kept.get("proof", "")
        elif op == "graft":
            e["op"] = "mangle"
            j["proof"] = ""
        self.put(slot, j)


def p31(ctx):
    ctx.tlc("CLIMC", workers=8, timeout=800)
    b = build(["h-cli"])
    light = ctx.marked(ctx.tlc("CLIGen", env={"N": 600 if THOROUGH else 80, "HEAVY": 0}, workers=1), "INST")
    heavy = ctx.marked(ctx.tlc("CLIGen", env={"N": 24 if THOROUGH else 3, "HEAVY": 1}, workers=1), "INST")
    words = sorted({q["args"][0] for h in heavy for q in h["ops"] if q["op"] == "prove" and q["circ"] == "hash" and q["args"]} | {"iamsecret", "x"})
    hashes = {w: ctx.run_bin([b + "/cli-circ", "hash", w]).strip() for w in words}
    insts = heavy + light

    def one(i):
        x = Box(ctx, b, i, hashes)
        for q in insts[i]["ops"]:
            x.step(q)
        shutil.rmtree(x.dir)
        return x.ev
    with ThreadPoolExecutor(8) as ex:
        evs = [e for r in ex.map(one, range(len(insts))) for e in r]
    for c in ctx.run_bin([b + "/cli-circ", "circuits"]).split():
        c = json.loads(c)
        evs.append(dict(DEF, inst=-2, op="binding", circ=c["circuit"], honest=c["honest"], bound=c["bound"]))
    trace = ctx.write("trace.ndjson", evs)
    rep = validate(ctx, "CLITrace", trace, timeout=800)
    if rep["n"] != len(evs):
        raise ToolError("trace length mismatch")
    ctx.cov["traces_validated_against_impl"] += len(insts)
    ctx.cov["commands"] = rep["seen"]
    ctx.sample({"history": insts[0]["ops"][:8]})
    for x in rep["bad"]:
        e = evs[x["line"] - 1]
        first = next(k for k in range(len(evs)) if evs[k]["inst"] == e["inst"])
        short = [{k: v for k, v in y.items() if v not in ("", [], DEF.get(k))} for y in evs[first:x["line"]]]
        if x["kind"] == "harness":
            raise Broken("cli:files", {"event": e, "history": short})
        ctx.violation("cli:" + x["kind"], {"event": e, "history": short[-12:]})
    if not ctx.viol and (rep["seen"]["yes"] < 20 or rep["seen"]["no"] < 20 or rep["seen"]["refused"] < 5):
        raise ToolError("vacuous: %s" % rep["seen"])
