"""Extraction of facts from /repo's current working tree.

Builds the rustc driver, mirrors the workspace (minus the two crates whose git
dependencies are not available offline), runs `cargo +nightly check` with the
driver as RUSTC_WORKSPACE_WRAPPER and returns the directory holding one JSON
file per crate.  Results are cached by a hash of the sources analysed.
"""
import hashlib, os, re, shutil, subprocess, sys, fcntl, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SPADE_REPO", "/repo")
BUILD = os.environ.get("SPADE_VERIF_BUILD", os.path.join(VERIF, ".build"))
EXCLUDED = {"spade-language-server", "spade-surfer-plugin"}
SKIP_TOP = {"target", "Cargo.lock", ".git"} | EXCLUDED


CRATES = [
    "spade-ast", "spade-ast-lowering", "spade-common", "spade-diagnostics", "spade-hir", "spade-hir-lowering",
    "spade-lang", "spade-lang.bin-spade", "spade-macros", "spade-mir", "spade-parser", "spade-query",
    "spade-simulation-ext", "spade-typeinference", "spade-types", "spadedoc", "vcd-translate",
]


class ExtractionError(Exception):
    pass


def source_files():
    out = []
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        if rel == ".":
            dirs[:] = [d for d in dirs if d not in ("target", ".git")]
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git", "node_modules"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock", ".spade", ".html", ".css", ".js", ".dj")):
                out.append(os.path.join(root, f))
    return out


def tree_hash():
    h = hashlib.sha256()
    for f in source_files():
        h.update(os.path.relpath(f, REPO).encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    for f in ("driver/src/main.rs", "driver/Cargo.toml"):
        with open(os.path.join(VERIF, f), "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


def members():
    s = open(os.path.join(REPO, "Cargo.toml")).read()
    m = re.search(r"members\s*=\s*\[(.*?)\]", s, re.S)
    return [x for x in re.findall(r'"([^"]+)"', m.group(1))]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise ExtractionError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def nightly_env():
    env = dict(os.environ)
    env["RUSTUP_TOOLCHAIN"] = "nightly"
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER"):
        env.pop(k, None)
    sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=env, stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    env["LD_LIBRARY_PATH"] = sysroot + "/lib"
    env["CARGO_INCREMENTAL"] = "0"
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    return env


def build_driver(env):
    tgt = os.path.join(BUILD, "driver-target")
    e = dict(env)
    e["CARGO_TARGET_DIR"] = tgt
    run(["cargo", "build", "--release", "--offline", "--quiet", "--manifest-path", os.path.join(VERIF, "driver", "Cargo.toml")], env=e, cwd=os.path.join(VERIF, "driver"))
    return os.path.join(tgt, "release", "spade-facts")


def mirror():
    ws = os.path.join(BUILD, "ws")
    if os.path.isdir(ws):
        shutil.rmtree(ws)
    os.makedirs(ws)
    for n in os.listdir(REPO):
        if n in SKIP_TOP or n == "Cargo.toml":
            continue
        os.symlink(os.path.join(REPO, n), os.path.join(ws, n))
    shutil.copy(os.path.join(REPO, "Cargo.lock"), os.path.join(ws, "Cargo.lock"))
    # the workspace manifest, with the two members whose git dependencies are unavailable left out
    s = open(os.path.join(REPO, "Cargo.toml")).read()
    for x in EXCLUDED:
        s = re.sub(r'\n\s*"%s"\s*,?' % re.escape(x), "", s)
    with open(os.path.join(ws, "Cargo.toml"), "w") as fh:
        fh.write(s)
    return ws


def extract():
    """Returns (facts_dir, tree_hash)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash()
        out = os.path.join(BUILD, "facts", h)
        if os.path.exists(os.path.join(out, "OK")):
            return out, h
        fd = os.path.join(BUILD, "facts")
        if os.path.isdir(fd):
            olds = sorted((os.path.getmtime(os.path.join(fd, d)), d) for d in os.listdir(fd))
            for _, d in olds[:-6]:
                shutil.rmtree(os.path.join(fd, d))
        env = nightly_env()
        drv = build_driver(env)
        ws = mirror()
        tgt = os.path.join(BUILD, "target")
        # cargo's freshness would skip the wrapper on a warm target directory: drop the
        # build units of every workspace member (both target-dir layouts)
        bd = os.path.join(tgt, "debug", "build")
        for n in os.listdir(bd) if os.path.isdir(bd) else []:
            if n.startswith("spade") or n.startswith("vcd-translate"):
                shutil.rmtree(os.path.join(bd, n))
        fp = os.path.join(tgt, "debug", ".fingerprint")
        if os.path.isdir(fp):
            shutil.rmtree(fp)
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs(out)
        e = dict(env)
        e["CARGO_TARGET_DIR"] = tgt
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["SPADE_FACTS_OUT"] = out
        run(["cargo", "check", "--workspace", "--offline", "--quiet"], env=e, cwd=ws)
        missing = [c for c in CRATES if not os.path.exists(os.path.join(out, c + ".json"))]
        if missing:
            raise ExtractionError("no facts were produced for: " + ", ".join(missing))
        if tree_hash() != h:
            raise ExtractionError("the source tree changed during extraction")
        open(os.path.join(out, "OK"), "w").write(h)
        return out, h


if __name__ == "__main__":
    t = time.time()
    d, h = extract()
    print(d, "%.1fs" % (time.time() - t))
    for f in sorted(os.listdir(d)):
        print("  ", f, os.path.getsize(os.path.join(d, f)))
