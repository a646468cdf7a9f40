"""Extract facts (MIR as JSON) from the current /repo working tree.

The driver is compiled once per driver source.  Facts are cached under
.build/facts-<hash of /repo sources>; a changed tree is re-checked, with
dependencies' metadata reused from .build/target.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
TARGET = os.path.join(BUILD, "target")


class FactsError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


def build_driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "driver-" + h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    code, sysroot = run(["rustc", "+nightly", "--print", "sysroot"])
    if code:
        raise FactsError("no nightly toolchain: " + sysroot)
    sysroot = sysroot.strip()
    tmp = out + ".tmp"
    code, log = run(["rustc", "+nightly", "-O", "--edition", "2021", src, "-o", tmp,
                     "-C", "link-arg=-Wl,-rpath," + sysroot + "/lib"], cwd=BUILD)
    if code:
        raise FactsError("driver build failed:\n" + log)
    os.rename(tmp, out)
    return out


def source_files():
    """Files that determine the compiled program."""
    res = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "node_modules"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lalrpop", ".lock", ".sql")) or "/src/" in root:
                res.append(os.path.join(root, f))
    return res


def tree_hash(driver):
    h = hashlib.sha256(os.path.basename(driver).encode())
    for f in source_files():
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def workspace_names():
    names = set()
    for f in source_files():
        if f.endswith("Cargo.toml"):
            for line in open(f, errors="replace"):
                if line.startswith("name"):
                    names.add(line.split("=", 1)[1].strip().strip('"'))
    return names


def ensure():
    """Return the directory holding the facts of the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        driver = build_driver()
        h = tree_hash(driver)
        out = os.path.join(BUILD, "facts-" + h)
        if os.path.exists(os.path.join(out, "done")):
            return out
        tmp = os.path.join(BUILD, "facts-tmp")
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        # Force the workspace's own crates through the driver again.
        names = workspace_names()
        for d in glob.glob(os.path.join(TARGET, "*", ".fingerprint", "*")):
            base = os.path.basename(d).rsplit("-", 1)[0]
            if base in names:
                shutil.rmtree(d, ignore_errors=True)
        env = dict(os.environ)
        for k in list(env):
            if k.startswith(("CARGO_", "RUSTFLAGS", "RUSTC")) and k not in ("CARGO_HOME",):
                env.pop(k)
        env.update(RUSTC=driver, FACTS_OUT=tmp, FACTS_ROOT=os.path.realpath(REPO), CARGO_NET_OFFLINE="true")
        code, log = run(["cargo", "+1.74", "check", "--workspace", "--all-features", "--offline", "--locked",
                         "--target-dir", TARGET], cwd=REPO, env=env)
        if code:
            raise FactsError("the tree does not compile under the fact extractor:\n" + log[-6000:])
        if len(glob.glob(os.path.join(tmp, "*.json"))) < 15:
            raise FactsError("fact extraction produced too few crates:\n" + log[-3000:])
        for old in glob.glob(os.path.join(BUILD, "facts-*")):
            if old != tmp:
                shutil.rmtree(old, ignore_errors=True)
        open(os.path.join(tmp, "done"), "w").close()
        os.rename(tmp, out)
        return out


if __name__ == "__main__":
    print(ensure())
