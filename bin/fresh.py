"""Which build products may be reused: usage fresh.py forget|remember TARGET_DIR"""
import glob, json, os, re, shutil, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def repo_packages():
    """every package of /repo: name -> digest of all its files"""
    import hashlib
    out = {}
    for t in glob.glob("/repo/crates/**/Cargo.toml", recursive=True) + ["/repo/extension/Cargo.toml", "/repo/Cargo.toml"]:
        m = re.search(r'^name\s*=\s*"([^"]+)"', open(t).read(), re.M)
        h = hashlib.sha256()
        for root, dirs, files in os.walk(os.path.dirname(t)):
            dirs[:] = sorted(d for d in dirs if d not in ("target", ".git") and not (root == "/repo" and d in ("crates", "extension")))
            for f in sorted(files):
                q = os.path.join(root, f)
                if os.path.isfile(q) and not os.path.islink(q):
                    h.update(q.encode() + b"\0" + open(q, "rb").read() + b"\0")
        if t.startswith("/repo/extension"):
            for q in sorted(glob.glob(os.path.join(V, "hooks", "**"), recursive=True)):
                if os.path.isfile(q):
                    h.update(q.encode() + b"\0" + open(q, "rb").read() + b"\0")
        out[m.group(1) if m else "workspace"] = h.hexdigest()
    return out


def forget_repo_builds(target):
    """Never trust mtimes: a package of /repo is recompiled unless every file of it is, byte for byte, what the build
    products there were made from.  Returns the digests to record once the build has succeeded."""
    now = repo_packages()
    try:
        was = json.load(open(os.path.join(target, "digests.json")))
    except (OSError, ValueError):
        was = {}
    stale = [n for n in now if was.get(n) != now[n] or was.get("workspace") != now.get("workspace")]
    if os.path.exists(os.path.join(target, "digests.json")):
        os.remove(os.path.join(target, "digests.json"))
    for n in stale + ["hx", "hxe"]:
        for d in glob.glob(f"{target}/**/build/{n}", recursive=True):
            shutil.rmtree(d, ignore_errors=True)
        for pat in (n, n.replace("-", "_")):
            for d in glob.glob(f"{target}/**/.fingerprint/{pat}-*", recursive=True):
                if re.fullmatch(re.escape(pat) + r"-[0-9a-f]{16}", os.path.basename(d)):
                    shutil.rmtree(d, ignore_errors=True)
    return now


def remember_builds(target, digests):
    json.dump(digests, open(os.path.join(target, "digests.json"), "w"))


if __name__ == "__main__":
    if sys.argv[1] == "forget":
        d = forget_repo_builds(sys.argv[2])
        os.makedirs(sys.argv[2], exist_ok=True)
        json.dump(d, open(os.path.join(sys.argv[2], "digests.pending"), "w"))
    else:
        os.rename(os.path.join(sys.argv[2], "digests.pending"), os.path.join(sys.argv[2], "digests.json"))
