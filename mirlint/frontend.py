"""Front end: compile the MIR extractor, then run the project's own compiler
(nightly-2019-08-26) over every workspace crate of /repo and load the MIR.

Nothing outside the scratch directory is written.  External crates are read
from the prebuilt /opt/vp/target/debug/deps; the dependencies that do not exist
offline are the type-level stand-ins in /verif/stubs.
"""
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
DEPS = "/opt/vp/target/debug/deps"
TOOLCHAIN = "nightly-2019-08-26"

# crate -> (source root in /repo, crate type)
CRATES = [
    ("mirmodel", None, "lib"),
    ("protocol", "protocol/src/lib.rs", "lib"),
    ("common_channel", "common/channel/src/lib.rs", "lib"),
    ("common_metrics", "common/metrics/src/lib.rs", "lib"),
    ("common_pubsub", "common/pubsub/src/lib.rs", "lib"),
    ("common_logger", "common/logger/src/lib.rs", "lib"),
    ("common_merkle", "common/merkle/src/lib.rs", "lib"),
    ("common_crypto", "common/crypto/src/lib.rs", "lib"),
    ("common_config_parser", "common/config-parser/src/lib.rs", "lib"),
    ("core_storage", "core/storage/src/lib.rs", "lib"),
    ("core_executor", "core/executor/src/lib.rs", "lib"),
    ("core_network", "core/network/src/lib.rs", "lib"),
    ("core_mempool", "core/mempool/src/lib.rs", "lib"),
    ("core_consensus", "core/consensus/src/lib.rs", "lib"),
    ("core_api", "core/api/src/lib.rs", "lib"),
    ("keypair", "devtools/keypair/src/main.rs", "bin"),
    ("huobi_chain", "src/main.rs", "bin"),
]
STUBS = ["ophelia", "ophelia_secp256k1", "ophelia_bls12381", "overlord", "reqwest",
         "toml", "futures", "serde", "juniper_codegen", "juniper", "tide"]



class FrontendError(Exception):
    pass


def _table():
    t = json.load(open(os.path.join(VERIF, "mirlint", "externs.json")))
    return t


def _run(cmd, env=None):
    return subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def sysroot():
    r = _run(["rustc", "+" + TOOLCHAIN, "--print", "sysroot"])
    if r.returncode:
        raise FrontendError("no toolchain %s: %s" % (TOOLCHAIN, r.stdout))
    return r.stdout.strip().splitlines()[-1]


def _rustc_env():
    e = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "RUSTC_WRAPPER")}
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    return e


def build_driver(scratch, sr):
    out = os.path.join(scratch, "mirx")
    r = _run(["rustc", "--edition", "2018", "-C", "opt-level=0", os.path.join(VERIF, "driver", "main.rs"), "-o", out,
              "--cap-lints", "allow"], _rustc_env())
    if r.returncode:
        raise FrontendError("driver does not build:\n" + r.stdout)
    return out


def _ext_dir(scratch):
    """Symlinks to the external (non-workspace) prebuilt crates only."""
    d = os.path.join(scratch, "ext")
    os.makedirs(d)
    own = {c for c, _, _ in CRATES}
    n = 0
    for f in os.listdir(DEPS):
        if f.startswith("lib") and f.rsplit(".", 1)[-1] in ("rmeta", "rlib", "so"):
            name = f[3:].rsplit("-", 1)[0]
            if name in own:
                continue
            os.symlink(os.path.join(DEPS, f), os.path.join(d, f))
            n += 1
    if n < 100:
        raise FrontendError("prebuilt dependencies missing in " + DEPS)
    return d


def _find_ext(ext, out, name, want):
    # workspace crate or stub
    for suf in (".rmeta", ".so"):
        p = os.path.join(out, "lib%s%s" % (name, suf))
        if os.path.exists(p):
            return p
    if want:
        for suf in (".so", ".rmeta", ".rlib"):
            p = os.path.join(ext, "lib%s%s" % (want, suf))
            if os.path.exists(p):
                return p
    c = []
    for suf in (".so", ".rmeta", ".rlib"):
        c += glob.glob(os.path.join(ext, "lib%s-*%s" % (name, suf)))
    if c:
        return sorted(c)[0]
    raise FrontendError("dependency %s not found" % name)


def closure(crates):
    """the workspace crates needed to compile the given ones, in build order"""
    table = _table()["crates"]
    own = [c for c, _, _ in CRATES]
    need = {"mirmodel"}
    todo = list(crates) if crates else list(own)
    while todo:
        c = todo.pop()
        if c in need:
            continue
        need.add(c)
        todo += [k for k in table.get(c, {}) if k in own]
    return [c for c in own if c in need]


def extract(scratch, verbose=False, crates=None):
    """Returns {crate: path of JSON}."""
    sr = sysroot()
    drv = build_driver(scratch, sr)
    ext = _ext_dir(scratch)
    out = os.path.join(scratch, "out")
    os.makedirs(out)
    table = _table()
    env0 = _rustc_env()
    libp = sr + "/lib"
    todo = closure(crates)
    stubs = set()
    for c in todo:
        stubs |= set(table["crates"].get(c, {})) & set(STUBS)
    for s in STUBS:
        stubs |= set(table["stubs"].get(s, {})) & set(STUBS) if s in stubs else set()
    for s in STUBS:
        if crates and s not in stubs:
            continue
        src = os.path.join(VERIF, "stubs", s + ".rs")
        kind = "proc-macro" if s == "juniper_codegen" else "lib"
        cmd = ["rustc", "--edition=2018", "--crate-name", s, src, "--crate-type", kind,
               "--out-dir", out, "-L", "dependency=" + ext, "-L", "dependency=" + out,
               "--cap-lints", "allow"]
        if kind == "lib":
            cmd += ["--emit=metadata"]
        for k in table["stubs"].get(s, {}):
            cmd += ["--extern", "%s=%s" % (k, _find_ext(ext, out, k, table["stubs"][s][k]))]
        r = _run(cmd, env0)
        if r.returncode:
            raise FrontendError("stub %s does not build:\n%s" % (s, r.stdout))
    res = {}
    for c, src, kind in CRATES:
        if c not in todo:
            continue
        src = os.path.join(REPO, src) if src else os.path.join(VERIF, "stubs", c + ".rs")
        js = os.path.join(out, c + ".json")
        cmd = [drv, "--edition=2018", "--crate-name", c, src, "--crate-type", kind,
               "--emit=metadata", "-C", "debug-assertions=off", "-L", "dependency=" + ext,
               "-L", "dependency=" + out, "--out-dir", out, "--cap-lints", "allow"]
        for k, w in table["crates"].get(c, {}).items():
            # the stand-ins that shadow a real crate are for one consumer each
            if (k == "futures" and c != "core_mempool") or (k == "serde" and c not in ("core_consensus", "protocol")):
                cmd += ["--extern", "%s=%s" % (k, _find_ext(ext, ext, k, w))]
                continue
            cmd += ["--extern", "%s=%s" % (k, _find_ext(ext, out, k, w))]
        e = dict(env0, MIRX_OUT=js, MIRX_SYSROOT=sr,
                 LD_LIBRARY_PATH=libp, CARGO_PKG_NAME=c, CARGO_PKG_VERSION="0.1.0",
                 CARGO_MANIFEST_DIR=os.path.dirname(os.path.dirname(src)))
        t = time.time()
        r = _run(cmd, e)
        if verbose:
            print("%s %.1fs rc=%d" % (c, time.time() - t, r.returncode))
        if r.returncode or not os.path.exists(js):
            raise FrontendError("crate %s does not compile:\n%s" % (c, r.stdout[-6000:]))
        res[c] = js
    return res


def tree_hash():
    h = hashlib.sha256()
    for root in (REPO, os.path.join(VERIF, "driver"), os.path.join(VERIF, "stubs")):
        for d, dn, fn in os.walk(root):
            dn[:] = sorted(x for x in dn if x not in (".git", "target", "rocksdb"))
            for f in sorted(fn):
                if f.endswith(".rs") or f == "Cargo.toml":
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    h.update(open(p, "rb").read())
    h.update(open(os.path.join(VERIF, "mirlint", "externs.json"), "rb").read())
    return h.hexdigest()[:32]


def load(verbose=False, crates=None):
    """Extract (or, for repeated local runs, reuse by content hash) and load."""
    cache = os.environ.get("VERIF_MIR_CACHE")
    if cache:
        d = os.path.join(cache, tree_hash())
        if not os.path.isdir(d):
            scratch = tempfile.mkdtemp(prefix="mirx-")
            try:
                r = extract(scratch, verbose)
                os.makedirs(d + ".tmp", exist_ok=True)
                for c, p in r.items():
                    shutil.copy(p, os.path.join(d + ".tmp", c + ".json"))
                os.rename(d + ".tmp", d)
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
        return {c: json.load(open(os.path.join(d, c + ".json"))) for c, _, _ in CRATES}
    scratch = tempfile.mkdtemp(prefix="mirx-")
    try:
        r = extract(scratch, verbose, crates)
        return {c: json.load(open(p)) for c, p in r.items()}
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    t = time.time()
    d = load(True)
    print({c: len(x["bodies"]) for c, x in d.items()}, "%.1fs" % (time.time() - t))
