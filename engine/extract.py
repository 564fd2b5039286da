"""Builds the MIR exporter and runs it over a crate of /repo's working tree."""
import json
import os
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")

CONFIGS = {
    "full": ["--no-default-features", "--features", "std,serde_support,expose_internal_utils"],
    "client": ["--no-default-features", "--features", "std,serde_support"],
    "bare": ["--no-default-features"],
}


class BuildError(Exception):
    pass


def _env():
    e = {k: v for k, v in os.environ.items() if not k.startswith("CARGO_") or k == "CARGO_HOME"}
    e.pop("RUSTFLAGS", None)
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True, env=_env()).strip()


def build_tool():
    d = os.path.join(VERIF, "extract")
    r = subprocess.run(["cargo", "+nightly", "build", "--offline", "--quiet"], cwd=d, env=_env(),
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("cannot build the exporter:\n" + r.stderr[-4000:])
    return os.path.join(d, "target", "debug", "extract")


def run(config="full", crate="triple_arena", manifest=None, tool=None):
    """Returns the exported JSON of `crate` built from the current tree."""
    tool = tool or build_tool()
    manifest = manifest or os.path.join(REPO, "triple_arena", "Cargo.toml")
    os.makedirs(WORK, exist_ok=True)
    out = tempfile.mkdtemp(prefix="x", dir=WORK)
    try:
        e = _env()
        e["LD_LIBRARY_PATH"] = sysroot() + "/lib"
        e["RUSTC_WORKSPACE_WRAPPER"] = tool
        e["EXTRACT_OUT"] = out
        e["EXTRACT_CRATES"] = crate
        e["CARGO_TARGET_DIR"] = os.path.join(out, "target")
        e["RUSTFLAGS"] = "-Zalways-encode-mir"
        feats = CONFIGS[config] if isinstance(config, str) else list(config)
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--quiet", "--lib",
                            "--manifest-path", manifest] + feats,
                           env=e, capture_output=True, text=True, cwd=out)
        f = os.path.join(out, crate + ".json")
        if r.returncode != 0 or not os.path.exists(f):
            raise BuildError("cannot analyse the crate:\n" + r.stderr[-4000:])
        with open(f) as h:
            return json.load(h)
    finally:
        shutil.rmtree(out, ignore_errors=True)


if __name__ == "__main__":
    import sys
    cfg = sys.argv[1]
    d = run(cfg)
    with open(sys.argv[2], "w") as h:
        json.dump(d, h)
