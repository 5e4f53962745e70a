"""Builds the MIR dumper and dumps the current tree of /repo (several configurations)."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")


class BuildError(Exception):
    pass


def _sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True,
                          check=True).stdout.strip()


def _hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for d, ds, fs in sorted(os.walk(p)):
                ds.sort()
                for f in sorted(fs):
                    q = os.path.join(d, f)
                    h.update(q.encode() + b"\0")
                    h.update(open(q, "rb").read())
        elif os.path.exists(p):
            h.update(p.encode() + b"\0")
            h.update(open(p, "rb").read())
    return h.hexdigest()[:20]


def env_for():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    if "/root/.cargo/bin" not in e.get("PATH", ""):
        e["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    for k in ("RUSTUP_TOOLCHAIN", "RUSTC", "RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    out = os.path.join(BUILD, "driver-" + _hash([src]))
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", tmp, "-A", "warnings"],
                           capture_output=True, text=True, env=env_for())
        if r.returncode:
            raise BuildError("driver does not build:\n" + r.stderr[-3000:])
        os.rename(tmp, out)
    return out


CONFIGS = {
    # name: (manifest dir, crate name, extra cargo args)
    "default": ("repo", "termimad", []),
    "nodefault": ("repo", "termimad", ["--no-default-features"]),
    "witness": ("witness", "verif_witness", []),
}


def _witness_of_copy(mdir):
    d = os.path.join(BUILD, "witness-" + hashlib.sha256(REPO.encode()).hexdigest()[:8])
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(mdir, d, ignore=shutil.ignore_patterns("target"))
    t = os.path.join(d, "Cargo.toml")
    s = open(t).read().replace('"/repo"', '"%s"' % REPO)
    open(t, "w").write(s)
    return d


def dump(config="default"):
    """Returns the parsed JSON dump of the current tree for one configuration."""
    os.makedirs(os.path.join(BUILD, "cache"), exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver()
        where, crate, extra = CONFIGS[config]
        srcs = [os.path.join(REPO, "src"), os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock")]
        mdir = REPO
        if where == "witness":
            mdir = os.path.join(VERIF, "witness")
            srcs += [os.path.join(mdir, "src"), os.path.join(mdir, "Cargo.toml")]
            if REPO != "/repo":  # (developer tools) the witness of a copy of the repository
                mdir = _witness_of_copy(mdir)
        key = _hash(srcs) + "-" + os.path.basename(drv)[-8:]
        out = os.path.join(BUILD, "cache", "%s-%s.json" % (config, key))
        if not os.path.exists(out):
            cdir = os.path.join(BUILD, "cache")
            old = sorted((os.path.join(cdir, f) for f in os.listdir(cdir) if f.startswith(config + "-")),
                         key=os.path.getmtime)
            for f in old[:-12]:  # keep the cache small
                os.unlink(f)
            e = env_for()
            e["LD_LIBRARY_PATH"] = _sysroot() + "/lib"
            e["RUSTC_WORKSPACE_WRAPPER"] = drv
            e["VERIF_CRATE"] = crate
            e["VERIF_DUMP"] = out
            e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "target")
            cmd = ["cargo", "+nightly", "rustc", "--offline", "--lib", "--manifest-path",
                   os.path.join(mdir, "Cargo.toml")] + extra + \
                  ["--", "--cfg", 'verif_nonce="%s%d"' % (key, time.time_ns()), "-A", "warnings"]
            r = subprocess.run(cmd, capture_output=True, text=True, env=e)
            if r.returncode or not os.path.exists(out):
                raise BuildError("cannot dump %s (exit %d):\n%s" % (config, r.returncode, r.stderr[-4000:]))
        with open(out) as f:
            return json.load(f)


if __name__ == "__main__":
    for c in sys.argv[1:] or CONFIGS:
        d = dump(c)
        print(c, len(d["bodies"]), "bodies")
