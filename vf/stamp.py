"""Freshness of the build by content: cargo compares times of files, and a clock set back would make it
reuse what an earlier tree was built into. The fingerprints of a crate whose sources differ from the ones
last built are dropped, so cargo rebuilds it and what depends on it."""
import glob, hashlib, json, os, re, shutil, sys
REPO = "/repo"


def crates(space):
    out = {}
    skip = ("/target/", "/.git/", "/node_modules/")
    for base in (REPO, space):
        for m in glob.glob(base + "/**/Cargo.toml", recursive=True):
            if any(s in m for s in skip):
                continue
            g = re.search(r'^\[package\][^\[]*?^name\s*=\s*"([^"]+)"', open(m, errors="replace").read(), re.M | re.S)
            if g:
                out[os.path.dirname(m)] = g.group(1)
    return out


def stamps(space):
    cs = crates(space)
    dirs = sorted(cs, key=len, reverse=True)
    h = {d: hashlib.sha256() for d in dirs}
    for base in (REPO, space):
        for root, sub, files in os.walk(base):
            sub[:] = sorted(s for s in sub if s not in ("target", ".git", "node_modules"))
            own = next((d for d in dirs if root == d or root.startswith(d + "/")), None)
            if own is None:
                continue
            for f in sorted(files):
                if f.endswith((".rs", ".toml")):
                    p = os.path.join(root, f)
                    text = open(p, "rb").read()
                    h[own].update(p.encode() + b"\0" + text + b"\0")
                    if base == space:  # sources of the repository compiled in by path
                        for q in sorted(set(re.findall(rb'"(/repo/[^"]+\.rs)"', text))):
                            for g in sorted(glob.glob(os.path.dirname(q.decode()) + "/**/*.rs", recursive=True)):
                                h[own].update(g.encode() + b"\0" + open(g, "rb").read() + b"\0")
    return {cs[d] + " " + d: h[d].hexdigest() for d in dirs}


def refresh(space, target):
    f = os.path.join(target, "vp_stamps.json")
    new = stamps(space)
    try:
        old = json.load(open(f))
    except Exception:
        old = None
    if old == new:
        return
    if old is not None:
        for k in new:
            if old.get(k) != new[k]:
                n = k.split(" ")[0]
                for d in glob.glob(os.path.join(target, "*", ".fingerprint", n + "-*")):
                    if re.fullmatch(re.escape(n) + "-[0-9a-f]{16}", os.path.basename(d)):
                        shutil.rmtree(d, ignore_errors=True)
    os.makedirs(target, exist_ok=True)
    with open(f, "w") as o:
        json.dump(new, o)


if __name__ == "__main__":
    refresh(sys.argv[1], sys.argv[2])
