"""Build the MIR dumper and dump the monomorphic MIR of /repo's current working tree."""
import fcntl, glob, json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SA_REPO", "/repo")
BUILD = os.environ.get("SA_BUILD", os.path.join(VERIF, "build"))


class DumpError(Exception):
    pass


def run(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise DumpError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def sysroot():
    return run(["rustc", "+nightly", "--print", "sysroot"]).strip()


def driver():
    tgt = os.path.join(BUILD, "driver")
    env = dict(os.environ)
    env["CARGO_TARGET_DIR"] = tgt
    env.pop("RUSTFLAGS", None)
    env.pop("RUSTC_WORKSPACE_WRAPPER", None)
    run(["cargo", "+nightly", "build", "--offline", "--locked", "-q"], env=env, cwd=os.path.join(VERIF, "driver"))
    return os.path.join(tgt, "debug", "mirdump")


def _dump_once(drv, tgt):
    # cargo's freshness cache would silently skip the wrapper: forget what it knows of this package
    for pat in ("debug/.fingerprint/retrocompressor-*", "debug/build/retrocompressor*", "debug/incremental/retrocompressor*"):
        for d in glob.glob(os.path.join(tgt, pat)):
            shutil.rmtree(d)
    out = tempfile.mkdtemp(prefix="dump.", dir=BUILD)
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        env.pop(k, None)
    env["CARGO_TARGET_DIR"] = tgt
    env["CARGO_INCREMENTAL"] = "0"
    env["RUSTC_WORKSPACE_WRAPPER"] = drv
    env["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
    env["MIRDUMP_OUT"] = out
    try:
        run(["cargo", "+nightly", "check", "--offline", "--locked", "--lib", "--bins",
             "--manifest-path", os.path.join(REPO, "Cargo.toml")], env=env)
        res = {}
        for k in ("lib", "bin"):
            f = os.path.join(out, "retrocompressor-%s.json" % k)
            if not os.path.exists(f):
                return None
            with open(f) as h:
                res[k] = json.load(h)
        return res
    finally:
        shutil.rmtree(out, ignore_errors=True)


def dump():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _dump()


def _dump():
    drv = driver()
    tgt = os.path.join(BUILD, "target")
    res = _dump_once(drv, tgt)
    if res is None:
        shutil.rmtree(tgt, ignore_errors=True)
        res = _dump_once(drv, tgt)
    if res is None:
        raise DumpError("the library or the binary was not dumped")
    return res


if __name__ == "__main__":
    r = dump()
    for k, v in r.items():
        print(k, len(v["fns"]), "fns", len(v["types"]), "types")
        if len(sys.argv) > 1:
            json.dump(v, open(os.path.join(sys.argv[1], k + ".json"), "w"))
