"""Common machinery: building the harness from /repo, running TLC, evidence, verdicts."""
import json, os, re, subprocess, sys, time, hashlib, shutil, fcntl, threading
from stamp import refresh

LOCK = threading.Lock()

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
HARN = os.path.join(ROOT, "harness")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class ToolError(Exception):
    pass


class Broken(Exception):
    """the code under test brought the driver down, or behaved outside everything the trace specification can read"""
    def __init__(self, what, detail):
        self.what, self.detail = what, detail


def cargo_env(target=None):
    env = dict(os.environ)
    env.update(HOME="/root", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true",
               CARGO_TARGET_DIR=target or os.path.join(HARN, "target"), RUSTFLAGS="-Awarnings --cfg vp_hooks", CARGO_TERM_COLOR="never")
    env.pop("CARGO_PROFILE_DEV_OPT_LEVEL", None)
    return env


class BuildFailure(Exception):
    pass


def build(pkgs, features=None, target=None, space=HARN):
    """cargo build of harness crates; returns the directory of the binaries"""
    cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(space, "Cargo.toml")]
    for p in pkgs:
        cmd += ["-p", p]
    if features:
        cmd += ["--features", features]
    env = cargo_env(target)
    refresh(space, env["CARGO_TARGET_DIR"])
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=space)
    if r.returncode != 0:
        raise ToolError("harness build failed:\n" + r.stdout[-4000:])
    return os.path.join(env["CARGO_TARGET_DIR"], "debug")


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.work = os.path.join(ROOT, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.viol = []
        self.known = []
        self.assume = []
        self.level = "model_checking"
        self.kf = load_known(pid)

    def path(self, n):
        return os.path.join(self.work, n)

    def tlc(self, module, cfg=None, env=None, simulate=None, depth=None, workers=4, timeout=600, heap="3g", extra=None, seed=None, expect_error=False):
        """run TLC; returns stdout. A safety violation in the model itself raises ToolError."""
        with LOCK:
            self.runs = getattr(self, "runs", 0) + 1
            meta = self.path("tlc_%s_%d" % (module, self.runs))
        os.makedirs(meta, exist_ok=True)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-XX:TieredStopAtLevel=%d" % (1 if simulate is None and timeout < 100 else 4), "-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers),
               "-metadir", meta, "-config", os.path.join(SPEC, cfg or module + ".cfg"), "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 50)]
        cmd += ["-seed", str(SEED if seed is None else seed)]
        cmd += extra or []
        cmd += [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, cwd=self.work)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on " + module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        with open(self.path(module + ".out"), "a") as f:
            f.write(r.stdout)
        m = None
        for m in re.finditer(r"([\d,]+) states generated,? (?:\([^)]*\) *)?,?\s*([\d,]+) distinct states", r.stdout):
            pass
        if m:
            self.cov["transitions"] += int(m.group(1).replace(",", ""))
            self.cov["states"] += int(m.group(2).replace(",", ""))
        m = re.search(r"The number of states generated: ([\d,]+)", r.stdout)
        if m:
            self.cov["transitions"] += int(m.group(1).replace(",", ""))
            self.cov["states"] += int(m.group(1).replace(",", ""))
        if r.returncode != 0 and not expect_error:
            raise ToolError("TLC failed on %s (rc %d):\n%s" % (module, r.returncode, r.stdout[-3000:]))
        return r.stdout

    def marked(self, out, mark):
        res = []
        for line in out.splitlines():
            line = line.strip()
            if line.startswith('"@%s@' % mark):
                line = json.loads(line)
                res.append(json.loads(line[len(mark) + 2:]))
        return res

    def write(self, name, objs):
        p = self.path(name)
        with open(p, "w") as f:
            for o in objs:
                f.write(json.dumps(o, separators=(",", ":")) + "\n")
        return p

    def read(self, name):
        with open(self.path(name)) as f:
            return [json.loads(l) for l in f if l.strip()]

    def run_bin(self, cmd, timeout=1800 if THOROUGH else 500, env=None):
        e = dict(os.environ)
        e["VERIF_SEED"] = str(SEED)
        e["VERIF_TIER"] = TIER
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=self.work)
        except subprocess.TimeoutExpired:
            raise Broken("driver:hang", {"cmd": cmd, "timeout": timeout})
        if r.returncode < 0 and r.returncode != -9 or r.returncode in (101, 134, 139):
            raise Broken("driver:crash", {"cmd": cmd, "rc": r.returncode, "out": r.stdout[-1500:].decode("utf8", "replace")})
        if r.returncode != 0:
            raise ToolError("driver failed (%s) rc %d: %s" % (cmd, r.returncode, r.stdout[-2000:].decode("utf8", "replace")))
        return r.stdout.decode("utf8", "replace")

    # -- verdicts
    def violation(self, what, detail):
        """what: short canonical key of the failing behaviour (matched against known findings)"""
        for k in self.kf:
            if k["match"] == what or (k["match"].endswith("*") and what.startswith(k["match"][:-1])):
                if k not in self.known:
                    self.known.append(k)
                return
        self.viol.append((what, detail))

    def sample(self, s, cap=6):
        if len(self.cov["samples"]) < cap:
            self.cov["samples"].append(s)

    def finish(self):
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": self.cov, "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if self.viol:
            rep = os.path.join(ROOT, "out", "%s.replay.json" % self.pid)
            os.makedirs(os.path.dirname(rep), exist_ok=True)
            with open(rep, "w") as f:
                json.dump([{"what": w, "detail": d} for w, d in self.viol[:50]], f, indent=1)
            for w, d in self.viol[:5]:
                print("  violated: %s %s" % (w, json.dumps(d)[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rep))
            return 1
        print("ok property=%s states=%d traces=%d wall=%.1fs" % (self.pid, self.cov["states"], self.cov["traces_validated_against_impl"], time.time() - self.t0))
        return 0


def load_known(pid):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid and k["status"] == "open"]


def validate(ctx, module, trace, env=None, cfg=None, timeout=600, heap="3g"):
    """run a trace specification; returns the list of rejected (1-based) line numbers"""
    e = {"TRACE": trace}
    e.update(env or {})
    out = ctx.tlc(module, cfg=cfg, env=e, workers=1, timeout=timeout, heap=heap, expect_error=True)
    got = ctx.marked(out, "BAD")
    if not got and re.search(r"Error: (Evaluating|TLC threw|The error occurred when TLC was evaluating|Attempted|In evaluation)|Attempted to|was not in the domain", out) and "OutOfMemory" not in out and "StackOverflow" not in out:
        raise Broken("trace:unreadable", {"module": module, "trace": trace, "out": out[-1500:]})
    if not got:
        raise ToolError("trace specification %s did not reach the end of %s:\n%s" % (module, trace, out[-2500:]))
    return got[-1]
