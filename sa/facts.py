"""Builds the MIR facts of /repo's current working tree.

A scratch workspace under $VERIF_WORK (default /verif/.work) mirrors /repo with symlinks (its
Cargo.toml minus the git dev-dependencies and benches, which cannot be resolved offline), the
extractor in /verif/driver is built, and `cargo check` runs with it as RUSTC_WORKSPACE_WRAPPER.
Facts are stored under a hash of every input (sources, manifest, extractor), so they are always
those of the current tree."""
import hashlib, json, os, shutil, subprocess, sys, tomllib, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))

CONFIGS = {                      # name -> cargo feature flags
    "all": ["--all-features"],
    "checkpointing": ["--features=checkpointing"],
    "rayon": ["--features=rayon"],
    "default": [],
    "nodefault": ["--no-default-features"],
}

class FactsError(Exception):
    pass

def _value(v):
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{json.dumps(k)} = {_value(x)}" for k, x in v.items()) + " }"
    if isinstance(v, list):
        return "[" + ", ".join(map(_value, v)) + "]"
    return json.dumps(v, ensure_ascii=False)

def _write_if_changed(path, text):
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)

def _link(src, dst):
    if os.path.islink(dst):
        if os.readlink(dst) == src:
            return
        os.unlink(dst)
    os.symlink(src, dst)

def _mkws(ws):
    os.makedirs(ws, exist_ok=True)
    with open(f"{REPO}/Cargo.toml", "rb") as f:
        m = tomllib.load(f)
    m.pop("bench", None); m.pop("example", None); m.pop("dev-dependencies", None); m.pop("test", None)
    m["package"]["autobenches"] = False
    m["package"]["autoexamples"] = False
    m["package"]["autotests"] = False
    lines = [f"{json.dumps(k)} = {_value(v)}" for k, v in m.items() if not isinstance(v, dict)]
    for sec, t in m.items():
        if isinstance(t, dict):
            lines.append(f"[{json.dumps(sec)}]")
            lines += [f"{json.dumps(k)} = {_value(v)}" for k, v in t.items()]
    _write_if_changed(f"{ws}/Cargo.toml", "\n".join(lines) + "\n")
    for n in ("src", "README.md", "build.rs"):
        if os.path.exists(f"{REPO}/{n}"):
            _link(f"{REPO}/{n}", f"{ws}/{n}")
    shutil.copyfile(f"{VERIF}/locks/core.lock", f"{ws}/Cargo.lock")
    py = f"{ws}/python"
    os.makedirs(py, exist_ok=True)
    for n in ("src", "README.md", "Cargo.toml"):
        if os.path.exists(f"{REPO}/python/{n}"):
            _link(f"{REPO}/python/{n}", f"{py}/{n}")
    shutil.copyfile(f"{VERIF}/locks/python.lock", f"{py}/Cargo.lock")

def tree_hash():
    h = hashlib.sha256()
    def add(root):
        if os.path.isfile(root):
            h.update(root.encode() + b"\0" + open(root, "rb").read() + b"\0"); return
        for d, ds, fs in sorted(os.walk(root, followlinks=True)):
            ds.sort()
            if "target" in ds: ds.remove("target")
            for f in sorted(fs):
                p = os.path.join(d, f)
                try:
                    h.update(os.path.relpath(p, root).encode() + b"\0" + open(p, "rb").read() + b"\0")
                except OSError:
                    pass
    for r in (f"{REPO}/src", f"{REPO}/Cargo.toml", f"{REPO}/README.md", f"{REPO}/python/src", f"{REPO}/python/Cargo.toml",
              f"{VERIF}/driver/src", f"{VERIF}/driver/Cargo.toml", f"{VERIF}/locks", f"{HERE}/models", f"{HERE}/facts.py"):
        if os.path.exists(r):
            add(r)
    return h.hexdigest()[:24]

def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise FactsError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout

_sysroot = None
def _env(extra=None):
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True,
                                  check=True).stdout.strip()
    e = dict(os.environ)
    for k in ("RUSTC_WRAPPER", "RUSTFLAGS", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"; e["CARGO_TERM_COLOR"] = "never"
    e["LD_LIBRARY_PATH"] = _sysroot + "/lib"
    e.update(extra or {})
    return e

def driver():
    t = f"{WORK}/driver"
    _run(["cargo", "+nightly", "build", "--release", "--offline", "--manifest-path", f"{VERIF}/driver/Cargo.toml"],
         env=_env({"CARGO_TARGET_DIR": t}))
    p = f"{t}/release/mirdump"
    if not os.path.exists(p):
        raise FactsError("extractor was not built")
    return p

def build(configs, python=False, retry=False):
    """-> {config name: facts path}; also 'models' and, with python, 'python'."""
    os.makedirs(WORK, exist_ok=True)
    with open(f"{WORK}/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        base = f"{WORK}/facts"
        key = tree_hash()
        out = f"{base}/{key}"
        if os.path.isdir(base):
            olds = sorted((os.path.join(base, d) for d in os.listdir(base) if d != key), key=os.path.getmtime)
            for d in olds[:-3]:
                shutil.rmtree(d, ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        res = {"models": f"{out}/models.json"}
        for c in configs:
            res[c] = f"{out}/{c}.json"
        if python:
            res["python"] = f"{out}/python.json"
        todo = [c for c, p in res.items() if not os.path.exists(p)]
        if not todo:
            return res
        drv = driver()
        ws = f"{WORK}/ws"
        _mkws(ws)
        for c in todo:
            tmp = f"{out}/tmp.{c}"
            shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
            env = {"MIRDUMP_OUT": tmp, "RUSTC_WORKSPACE_WRAPPER": drv}
            if c == "models":
                _env()
                env = {"MIRDUMP_OUT": tmp, "MIRDUMP_CRATES": "models"}
                _run([drv, "rustc", "--sysroot", _sysroot, "--crate-name", "models", "--edition", "2021", "--crate-type", "lib",
                      "--emit", "metadata", "-o", f"{tmp}/models.rmeta", f"{HERE}/models/models.rs"], env=_env(env))
                got = f"{tmp}/models.json"
            elif c == "python":
                env.update({"MIRDUMP_CRATES": "pyglobalsearch", "CARGO_TARGET_DIR": f"{WORK}/tpy"})
                _clean(f"{WORK}/tpy", "pyglobalsearch")
                _run(["cargo", "+nightly", "check", "--lib", "--offline"], cwd=f"{ws}/python", env=_env(env))
                got = f"{tmp}/pyglobalsearch.json"
            else:
                env.update({"MIRDUMP_CRATES": "globalsearch", "CARGO_TARGET_DIR": f"{WORK}/tcore"})
                _clean(f"{WORK}/tcore", "globalsearch")
                _run(["cargo", "+nightly", "check", "--lib", "--offline"] + CONFIGS[c], cwd=ws, env=_env(env))
                got = f"{tmp}/globalsearch.json"
            if not os.path.exists(got) and c != "models" and not retry:
                shutil.rmtree(f"{WORK}/tpy" if c == "python" else f"{WORK}/tcore", ignore_errors=True)
                fcntl.flock(lk, fcntl.LOCK_UN)
                return build(configs, python, retry=True)
            if not os.path.exists(got):
                raise FactsError(f"no facts were produced for configuration {c}")
            os.replace(got, res[c])
            shutil.rmtree(tmp, ignore_errors=True)
        return res

def _clean(target, crate):
    """Drop cargo's fingerprints of the crate, so the wrapper runs on a warm target directory."""
    for prof in ("debug",):
        shutil.rmtree(f"{target}/{prof}/build/{crate}", ignore_errors=True)     # newer cargo layout
        shutil.rmtree(f"{target}/{prof}/incremental", ignore_errors=True)
        fp = f"{target}/{prof}/.fingerprint"
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.rsplit("-", 1)[0] == crate:
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)

if __name__ == "__main__":
    import time
    t = time.time()
    names = sys.argv[1:] or list(CONFIGS)
    r = build([n for n in names if n != "python"], python="python" in names)
    for k, v in r.items():
        print(k, v, os.path.getsize(v))
    print("%.1fs" % (time.time() - t))
